"""Search trees of nanostl::map<Key, T>: opaque subtrees with an abstract view, and contracts of the recursive functions.

A subtree that has not been looked at is a TreeObj: an arbitrary binary search tree described by functions over keys
  has(k)    - a node with key k is in it
  val(k)    - that node's mapped value
  ident(k)  - that node's identity (its address, as a number)
Ghost function OWN maps the address of a node to the allocation it comes from (a number per parameter tree, per new node, per
copy), so nodes of different origin are different nodes.
A pointer to it may be null exactly when it is empty.  Dereferencing the pointer unfolds it: the object becomes a Node with a key,
a value, and two opaque subtrees, whose views are related to the view of the whole by the search-tree property (assumed for what
was opaque, and an obligation for every tree handed to a contract or returned from a function under contract).
A node inside an opaque tree is an InnerObj(tree, key)."""
import re, z3
from .terms import *
from . import core
from .core import Ptr, NULL, Undef, Unsupported, StructObj, State
from .solver import QFact

_FN = re.compile(r'^(nanostl::map<([a-z ]+), ([a-z ]+)>)::(__find|__insert|__upper_bound|__first|__delete|__copy)\(')
BITS = {'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False), 'short': (16, True), 'unsigned short': (16, False),
        'int': (32, True), 'unsigned int': (32, False), 'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True),
        'unsigned long long': (64, False)}
ARITY = {'__find': 3, '__upper_bound': 3, '__first': 2, '__delete': 2, '__copy': 2, '__insert': 4}


OWN = z3.Function('vp.owner', BV64, BV64)


def origin(st, T, label):
    """all nodes of the tree come from the same (new) origin"""
    h, i = T.has, T.ident
    st.facts.append(QFact({h.name(): (lambda x: x), i.name(): (lambda x: x)}, lambda x: Implies(h(x), OWN(i(x)) == bv(label)), 'origin'))


class Layout:
    pass


def layout(ex, mapname, kt, vt):
    cache = ex.__dict__.setdefault('_treelay', {})
    if mapname in cache:
        return cache[mapname]
    from . import classes, llir
    ty = None
    for n, t in ex.mod.structs.items():
        if re.fullmatch(re.escape('struct.' + mapname + '::Node') + r'(\.\d+)?', n) and t.size:
            ty = t
    if ty is None:
        raise Unsupported('no layout for ' + mapname + '::Node')
    l = Layout()
    l.size = ty.size
    lv = classes.leaves(ty)
    ptrs = [o for o, t in lv if t.k == 'ptr']
    ints = [(o, t) for o, t in lv if t.k == 'int']
    if len(ptrs) != 2 or ptrs[1] != ptrs[0] + 8 or len(ints) < 2:
        raise Unsupported('Node is not {key, value, .., ch[2]}')
    l.kbits, l.ksigned = BITS[kt]
    l.vbits = BITS[vt][0]
    (l.key, kty), (l.val, vty) = ints[0], ints[1]
    if kty.bits != l.kbits or vty.bits != l.vbits:
        raise Unsupported('Node does not start with the entry')
    l.kty, l.vty = kty, vty
    l.rest = ints[2:]
    l.entry = ty.elems[0].size if ty.elems[0].k == 'struct' else l.val + l.vbits // 8
    l.ch = ptrs
    l.mapname = mapname
    cache[mapname] = l
    return l


def lt(lay, a, b):
    return a < b if lay.ksigned else z3.ULT(a, b)


def le(lay, a, b):
    return a <= b if lay.ksigned else z3.ULE(a, b)


class LazyObj:
    pass


class TreeObj(LazyObj):
    ro = False
    kind = 'tree'

    def __init__(self, lay, name, empty):
        self.lay = lay
        self.size = lay.size
        self.sym = '%s!%d' % (name, uid())
        K = z3.BitVecSort(lay.kbits)
        self.has = z3.Function(self.sym + '.has', K, z3.BoolSort())
        self.vfn = z3.Function(self.sym + '.val', K, z3.BitVecSort(lay.vbits))
        self.ident = z3.Function(self.sym + '.id', K, BV64)
        self.rootkey = z3.BitVec(self.sym + '.root', lay.kbits)
        X = z3.BitVecSort(lay.kbits + 2)
        self.rk = z3.Function(self.sym + '.rk', X, X, K)
        self.nul = z3.Function(self.sym + '.nul', X, X, z3.BoolSort())
        self.empty = empty if empty is not None else z3.Bool(self.sym + '.empty')
        self.absent = self.empty
        self.over = ()
        self.anc = frozenset()
        self.live = True
        self.name = name

    def clone(self):
        o = object.__new__(TreeObj)
        o.__dict__.update(self.__dict__)
        return o

    def val(self, x):
        v = self.vfn(x)
        for k, w in self.over:
            v = ite(simp(x == k), w, v)
        return v


class InnerObj:
    """the node with key `key` of the tree whose root pointer object is `tree`"""
    ro = False
    kind = 'inner'

    def __init__(self, lay, tree, key, ident):
        self.lay = lay
        self.size = lay.size
        self.tree = tree
        self.key = key
        self.ident = ident
        self.live = True
        self.name = 'node'

    def clone(self):
        return InnerObj(self.lay, self.tree, self.key, self.ident)


class SubObj(InnerObj):
    """the root of the subtree that holds the keys of `tree` between lo and hi (terms two bits wider than keys, so that the
    whole tree is an interval too).  The shape of a search tree is determined by the root keys rk(lo, hi) of its subtrees; a
    subtree pointer is null, nul(lo, hi), exactly when no key lies between."""

    def __init__(self, lay, tree, T, lo, hi):
        k = T.rk(lo, hi)
        InnerObj.__init__(self, lay, tree, k, T.ident(k))
        self.lo, self.hi, self.tsym = lo, hi, T.sym

    def clone(self):
        o = object.__new__(SubObj)
        o.__dict__.update(self.__dict__)
        return o


def wide(lay, k):
    return z3.SignExt(2, k) if lay.ksigned else z3.ZeroExt(2, k)


def ends(lay):
    return bv(-(1 << lay.kbits), lay.kbits + 2), bv(1 << lay.kbits, lay.kbits + 2)


def subtree(ex, st, root, lo, hi):
    """pointer to the subtree between lo and hi"""
    T = st.mem[root]
    lay = T.lay
    lo, hi = simp(lo), simp(hi)
    o = SubObj(lay, root, T, lo, hi)
    null = T.nul(lo, hi)
    h = T.has
    st.facts.append(QFact({h.name(): (lambda i: i)}, lambda x: Implies(And(h(x), lo < wide(lay, x), wide(lay, x) < hi), Not(null)), 'sub'))
    st.assume(Or(null, And(h(o.key), lo < wide(lay, o.key), wide(lay, o.key) < hi)))
    a, b = ends(lay)
    if lo.eq(simp(a)) and hi.eq(simp(b)):
        st.assume(And(null == T.empty, Or(null, o.key == T.rootkey)))
    return Ptr(ex.newobj(st, o), bv(0), 0, null)


def new_tree(ex, st, lay, name, empty=None):
    T = TreeObj(lay, name, empty)
    oid = ex.newobj(st, T)
    e, h, rk = T.empty, T.has, T.rootkey
    st.facts.append(QFact({h.name(): (lambda i: i)}, lambda x: Implies(h(x), Not(e)), 'tree'))
    st.assume(simp(Or(e, h(rk))))
    return oid, T


def chase(st, oid):
    n = 0
    while isinstance(st.mem.get(oid), InnerObj) and n < 100:
        oid = st.mem[oid].tree
        n += 1
    return oid


def addr(oid):
    return z3.BitVec('addr_%d' % oid, 64)


def ident_of(st, p):
    o = st.mem.get(p.obj)
    return o.ident if isinstance(o, InnerObj) else addr(p.obj)


def materialise(ex, st, oid):
    """unfold an opaque non-empty tree one level"""
    T = st.mem[oid]
    lay = T.lay
    st.assume(simp(Not(T.empty)))
    k = T.rootkey
    lo, L = new_tree(ex, st, lay, 'l')
    ro, R = new_tree(ex, st, lay, 'r')
    for c in (L, R):
        c.over = T.over
        c.anc = T.anc | {T.sym}
    cells = {lay.key: (lay.kbits // 8, k), lay.val: (lay.vbits // 8, T.val(k))}
    for off, t in lay.rest:
        if t.bits >= 8:
            cells[off] = (t.bits // 8, fresh('pri', t.bits))
    cells[lay.ch[0]] = (8, Ptr(lo, bv(0), 0, L.empty))
    cells[lay.ch[1]] = (8, Ptr(ro, bv(0), 0, R.empty))
    st.mem[oid] = StructObj(lay.size, 'new', cells, 'node')
    Th, Tv, Ti, Lh, Lv, Li, Rh, Rv, Ri = T.has, T.vfn, T.ident, L.has, L.vfn, L.ident, R.has, R.vfn, R.ident

    def fact(x):
        less = lt(lay, x, k)
        return And(Th(x) == Or(x == k, And(less, Lh(x)), And(Not(less), Rh(x))),
                   Implies(Lh(x), less), Implies(Rh(x), And(Not(less), x != k)),
                   Implies(Lh(x), And(Tv(x) == Lv(x), Ti(x) == Li(x))),
                   Implies(Rh(x), And(Tv(x) == Rv(x), Ti(x) == Ri(x))))
    ident = lambda i: i
    st.facts.append(QFact({f.name(): ident for f in (Th, Lh, Rh, Tv, Ti)}, fact, 'unfold'))
    st.assume(Th(k))
    st.assume(Ti(k) == addr(oid))
    return st.mem[oid]


def is_node(st, o, lay):
    return isinstance(o, StructObj) and o.size == lay.size and lay.ch[0] in o.cells and lay.ch[1] in o.cells


class Bad(Exception):
    pass


class View:
    def __init__(self, has, val, ident):
        self.has, self.val, self.ident = has, val, ident


EMPTY = View(lambda x: FALSE, None, lambda x: bv(0))


def entry_load(ex, st, oid, off, ty):
    v = ex.load_cell(st, oid, st.mem[oid], off, ty.store, ty)
    return fresh('uninit', ty.bits) if isinstance(v, Undef) else v


def view(ex, st, p, lay, seen=None, wf=None):
    """abstract view of the tree a pointer designates; collects its objects in seen and, in wf, what must hold for it
    to be a search tree"""
    if seen is None:
        seen = []
    if isinstance(p, Undef) or not isinstance(p, Ptr):
        raise Bad('indeterminate child pointer')
    if p.obj is None:
        return View(lambda x: FALSE, lambda x: bv(0, lay.vbits), lambda x: bv(0))
    nn = TRUE if p.nullc is None else Not(p.nullc)
    o = st.mem.get(p.obj)
    if o is None or not o.live:
        if is_true(simp(Not(nn))):
            return View(lambda x: FALSE, lambda x: bv(0, lay.vbits), lambda x: bv(0))
        raise Bad('released node in a tree')
    if p.sub or not (isc(p.idx) and cval(p.idx) == 0):
        raise Bad('pointer into the middle of a node')
    if p.obj in seen:
        raise Bad('node reachable twice')
    seen.append(p.obj)
    if isinstance(o, TreeObj):
        return View(lambda x: And(nn, o.has(x)), o.val, o.ident)
    if isinstance(o, InnerObj):
        raise Bad('node belongs to another tree')
    if not is_node(st, o, lay):
        raise Bad('not a node')
    k = entry_load(ex, st, p.obj, lay.key, lay.kty)
    v = entry_load(ex, st, p.obj, lay.val, lay.vty)
    L = view(ex, st, o.cells[lay.ch[0]][1], lay, seen, wf)
    R = view(ex, st, o.cells[lay.ch[1]][1], lay, seen, wf)
    oid = p.obj
    if wf is not None:
        x = fresh('key', lay.kbits)
        wf.append((Implies(And(nn, L.has(x)), lt(lay, x, k)), 'keys of a left subtree are smaller'))
        x = fresh('key', lay.kbits)
        wf.append((Implies(And(nn, R.has(x)), lt(lay, k, x)), 'keys of a right subtree are larger'))
    return View(lambda x: And(nn, Or(x == k, And(lt(lay, x, k), L.has(x)), And(lt(lay, k, x), R.has(x)))),
                lambda x: ite(simp(x == k), v, ite(simp(lt(lay, x, k)), L.val(x), R.val(x))),
                lambda x: ite(simp(x == k), addr(oid), ite(simp(lt(lay, x, k)), L.ident(x), R.ident(x))))


def opaque(ex, st, p, lay, I):
    """the pointer designates a whole, well-formed tree: make it opaque (in place); returns (oid or None, nonempty)"""
    if isinstance(p, Undef):
        raise Unsupported('indeterminate tree pointer')
    if not isinstance(p, Ptr):
        raise Unsupported('tree pointer')
    if p.obj is None:
        return None, FALSE
    nn = TRUE if p.nullc is None else Not(p.nullc)
    o = st.mem.get(p.obj)
    if isinstance(o, TreeObj) and o.live:
        return p.obj, nn
    if isinstance(o, InnerObj):
        raise Unsupported('subtree of an opaque tree')
    seen, wf = [], []
    try:
        v = view(ex, st, p, lay, seen, wf)
    except Bad as e:
        ex.oblige(st, simp(Not(nn)), 'contract', I, 'argument is a search tree: %s' % e)
        raise Unsupported('not a tree: %s' % e)
    for c, m in wf:
        ex.oblige(st, simp(c), 'contract', I, m)
    keys = {i: entry_load(ex, st, i, lay.key, lay.kty) for i in seen if isinstance(st.mem[i], StructObj)}
    subs = [st.mem[i] for i in seen if isinstance(st.mem[i], TreeObj)]
    opq = [i for i in seen if isinstance(st.mem[i], TreeObj)]
    T = TreeObj(lay, 'f', FALSE)
    st.mem[p.obj] = T
    T.rootkey = keys[p.obj]
    h, vf, idf = T.has, T.vfn, T.ident

    def fact(x):
        return And(h(x) == v.has(x), Implies(h(x), And(vf(x) == v.val(x), idf(x) == v.ident(x))))
    tr = {h.name(): (lambda i: i)}
    for s in subs:
        tr[s.has.name()] = (lambda i: i)
    st.facts.append(QFact(tr, fact, 'fold'))
    st.assume(h(T.rootkey))
    for i, k in keys.items():
        if i != p.obj:
            st.mem[i] = InnerObj(lay, p.obj, k, addr(i))
    for i, s in zip(opq, subs):
        st.mem[i] = InnerObj(lay, p.obj, s.rootkey, addr(i))
    return p.obj, TRUE


def root_of(ex, st, o, I, what):
    r = chase(st, o.tree)
    t = st.mem.get(r)
    if t is None or not t.live:
        ex.oblige(st, FALSE, 'use-after-free', I, what + ' of a node of a released tree')
        st.dead = True
        return None
    if not isinstance(t, TreeObj):
        raise Unsupported('entry of a tree that is being restructured')
    return r


def inner_load(ex, st, o, off, ty, I):
    lay = o.lay
    r = root_of(ex, st, o, I, 'load')
    if r is None:
        return Undef(ty)
    if ty.k == 'int' and off == lay.key and ty.bits == lay.kbits:
        return o.key
    if ty.k == 'int' and off == lay.val and ty.bits == lay.vbits:
        return simp(st.mem[r].val(o.key))
    if isinstance(o, SubObj) and st.mem[r].sym == o.tsym:
        for n in (0, 1):
            if ty.k == 'ptr' and off == lay.ch[n]:
                k = wide(lay, o.key)
                return subtree(ex, st, r, *((o.lo, k) if n == 0 else (k, o.hi)))
        for f, t in lay.rest:
            if ty.k == 'int' and f == off and t.bits == ty.bits:
                return fresh('pri', ty.bits)
    raise Unsupported('structure of an opaque tree is inspected through an entry')


def inner_store(ex, st, o, off, v, ty, I):
    lay = o.lay
    r = root_of(ex, st, o, I, 'store')
    if r is None:
        return
    if ty.k == 'int' and off == lay.val and ty.bits == lay.vbits:
        t = st.w(r)
        t.over = t.over + ((o.key, ex.num(v)),)
        return
    raise Unsupported('structure of an opaque tree is changed through an entry')


def node_eq(st, a, b):
    """equality of two pointers at least one of which designates a node of an opaque tree"""
    na = FALSE if a.nullc is None else a.nullc
    nb = FALSE if b.nullc is None else b.nullc
    oa, ob = st.mem.get(a.obj), st.mem.get(b.obj)
    if isinstance(oa, InnerObj) and isinstance(ob, InnerObj) and chase(st, oa.tree) == chase(st, ob.tree):
        e = simp(oa.key == ob.key)
    else:
        e = simp(ident_of(st, a) == ident_of(st, b))
    if a.sub != b.sub:
        e = FALSE
    return Or(And(na, nb), And(Not(na), Not(nb), e))


class TreeFn:
    """contract of one recursive function of map<Key, T>; T is the tree of the argument t (null: the empty tree)
    __find(t, k):        null exactly when !has(k), else the node with key k
    __upper_bound(t, k): null exactly when no key is larger than k, else the node with the least such key
    __first(t):          null exactly when T is empty, else the node with the least key
    __insert(t, x):      a search tree with the keys of T and x.first; old entries keep value and identity, a new one has x.second;
                         the iterator designates the entry of x.first, the flag says whether it is new
    __delete(t):         releases every node of T
    __copy(t):           a new tree with the entries of T
    All but __insert and __delete leave T unchanged, all leave everything else unchanged (the generator of priorities excepted)."""

    def __init__(self, ex, F):
        m = _FN.match(F.dem)
        self.name = F.dem
        self.sym = F.name
        self.which = m.group(4)
        self.lay = layout(ex, m.group(1), m.group(2), m.group(3))
        if len(F.args) != ARITY[self.which]:
            raise Unsupported('unexpected parameters')
        self.T0 = None

    def match(self, F):
        return F.name == self.sym

    def result(self, ex, st, root, key, has):
        """pointer to the node with this key"""
        T = st.mem[root]
        oid = ex.newobj(st, InnerObj(self.lay, root, key, T.ident(key)))
        c = simp(Not(has))
        return Ptr(oid, bv(0), 0, None if is_false(c) else c)

    def apply(self, ex, st, F, args, I):
        lay = self.lay
        w = self.which
        if w == '__insert':
            sret, this, t, x = args
        else:
            this, t = args[:2]
        root, nn = opaque(ex, st, t, lay, I)
        T = st.mem[root] if root is not None else None
        if ex.verifying is self:
            ex.oblige(st, z3.BoolVal(T is None or self.T0 in T.anc), 'termination', I, 'the recursion is on a proper subtree')
        if w in ('__find', '__upper_bound'):
            key = ex.load(st, args[2], lay.kty, I)
            if st.dead:
                return []
        if w == '__delete':
            if root is not None:
                st.w(root).live = False
            return [(st, None)]
        if w == '__insert':
            return self.apply_insert(ex, st, sret, this, x, root, T, nn, I)
        if root is None:
            return [(st, NULL)]
        if w == '__find':
            return [(st, self.result(ex, st, root, key, simp(And(nn, T.has(key)))))]
        if w == '__copy':
            woid, W = new_tree(ex, st, lay, 'c', T.empty)
            self.havoc_globals(st)
            h, h2, v2 = T.has, W.has, W.vfn
            tv = T.val
            st.facts.append(QFact({h.name(): (lambda i: i), h2.name(): (lambda i: i)},
                                  lambda x: And(h2(x) == h(x), Implies(h(x), v2(x) == tv(x))), 'copy'))
            origin(st, W, uid())
            return [(st, Ptr(woid, bv(0), 0, t.nullc))]
        k2 = fresh('node.key', lay.kbits)
        e = z3.Bool('node.exists!%d' % uid())
        h = T.has
        if w == '__first':
            st.facts.append(QFact({h.name(): (lambda i: i)}, lambda x: Implies(And(nn, h(x)), And(e, le(lay, k2, x))), 'first'))
            st.assume(Implies(e, And(nn, h(k2))))
        else:
            st.facts.append(QFact({h.name(): (lambda i: i)},
                                  lambda x: Implies(And(nn, h(x), lt(lay, key, x)), And(e, le(lay, k2, x))), 'upper'))
            st.assume(Implies(e, And(nn, h(k2), lt(lay, key, k2))))
        return [(st, self.result(ex, st, root, k2, e))]

    def havoc_globals(self, st):
        """(the priority generator)"""
        for n in [n for n, o in st.gobj.items() if not st.mem[o].ro]:
            del st.gobj[n]

    def apply_insert(self, ex, st, sret, this, x, root, T, nn, I):
        lay = self.lay
        so = st.mem.get(sret.obj) if isinstance(sret, Ptr) else None
        if not isinstance(so, StructObj) or so.size != 32 or sret.sub:
            raise Unsupported('result of __insert')
        key = ex.load(st, Ptr(x.obj, x.idx, x.sub + lay.key, x.nullc), lay.kty, I)
        v = ex.load(st, Ptr(x.obj, x.idx, x.sub + lay.val, x.nullc), lay.vty, I)
        if st.dead:
            return []
        woid, W = new_tree(ex, st, lay, 'w', FALSE)
        old = (lambda y: And(nn, T.has(y))) if T is not None else (lambda y: FALSE)
        h, vf, idf = W.has, W.vfn, W.ident
        tv = T.val if T is not None else (lambda y: bv(0, lay.vbits))
        ti = T.ident if T is not None else (lambda y: bv(0))
        nid = fresh('new.id', 64)
        st.assume(OWN(nid) == bv(uid()))

        def fact(y):
            return And(h(y) == Or(old(y), y == key),
                       Implies(old(y), And(vf(y) == tv(y), idf(y) == ti(y))),
                       Implies(And(Not(old(y)), y == key), And(vf(y) == v, idf(y) == nid)))
        tr = {h.name(): (lambda i: i)}
        if T is not None:
            tr[T.has.name()] = (lambda i: i)
        st.facts.append(QFact(tr, fact, 'insert'))
        st.assume(h(key))
        if root is not None:
            st.mem[root] = InnerObj(lay, woid, T.rootkey, addr(root))
        self.havoc_globals(st)
        p = self.result(ex, st, woid, key, TRUE)
        o = st.w(sret.obj)
        for off, sz, val in ((0, 8, Ptr(woid)), (8, 8, this), (16, 8, p)):
            ex.put_cell(st, o, off, sz, val, None)
        ex.put_cell(st, o, 24, 1, simp(z3.If(old(key), bv(0, 8), bv(1, 8))), None)
        return [(st, None)]

    # ---------------------------------------------------------------- the body satisfies the contract
    def verify(self, ex, F):
        lay = self.lay
        w = self.which
        st = State(ex)
        ex.verifying = self
        ex.contracts = [self]
        root, T = new_tree(ex, st, lay, 't')
        self.T0 = T.sym
        origin(st, T, 0)
        t = Ptr(root, bv(0), 0, T.empty)
        this = Ptr(ex.newobj(st, StructObj(8, 'param', name='map')))
        args = [this, t]
        key = z3.BitVec('key', lay.kbits)
        ent = {lay.key: (lay.kbits // 8, key)}
        sret = None
        if w == '__insert':
            v = z3.BitVec('value', lay.vbits)
            ent[lay.val] = (lay.vbits // 8, v)
            sret = Ptr(ex.newobj(st, StructObj(32, 'param', name='result')))
        keyobj = ex.newobj(st, StructObj(lay.entry if w == '__insert' else lay.kbits // 8, 'param', ent, 'x'))
        st.mem[keyobj].ro = True
        if w in ('__find', '__upper_bound', '__insert'):
            args.append(Ptr(keyobj))
        if sret is not None:
            args = [sret] + args
        known = set(st.mem)
        n = 0
        for s, r in ex.call(F, st, args):
            if s.dead or not ex.feasible(s):
                continue
            n += 1
            self.post(ex, s, r, this, root, T, key, ent, sret, known)
        if n == 0:
            raise Unsupported('no path through ' + F.dem)

    def post(self, ex, s, r, this, root, T, key, ent, sret, known):
        lay = self.lay
        w = self.which
        O = lambda c, m: ex.oblige(s, simp(c), 'contract', None, m)
        y = fresh('any', lay.kbits)
        owned = []
        t = Ptr(root, bv(0), 0, T.empty)
        if w in ('__find', '__upper_bound', '__first', '__copy'):
            wf = []
            try:
                V = view(ex, s, t, lay, owned, wf)
            except Bad as e:
                return O(FALSE, 'the tree is unchanged: %s' % e)
            for c, m in wf:
                O(c, m)
            O(V.has(y) == T.has(y), 'the keys are unchanged')
            O(Implies(T.has(y), And(V.val(y) == T.val(y), V.ident(y) == T.ident(y))), 'the entries are unchanged')
        if w in ('__find', '__upper_bound', '__first'):
            if isinstance(r, Undef):
                return O(FALSE, 'a result')
            null = TRUE if r.obj is None else (FALSE if r.nullc is None else r.nullc)
            if w == '__find':
                O(null == Not(T.has(key)), 'null exactly when the key is absent')
            elif w == '__upper_bound':
                O(Implies(And(null, T.has(y)), Not(lt(lay, key, y))), 'null only when no key is larger')
            else:
                O(Implies(null, Not(T.has(y))), 'null only for the empty tree')
            if r.obj is not None:
                o = s.mem[r.obj]
                nn = Not(null)
                if isinstance(o, InnerObj):
                    k2 = o.key
                elif isinstance(o, TreeObj):
                    k2 = o.rootkey
                elif is_node(s, o, lay):
                    k2 = entry_load(ex, s, r.obj, lay.key, lay.kty)
                else:
                    return O(FALSE, 'the result is a node')
                O(z3.BoolVal(r.sub == 0), 'the result is a node')
                O(Implies(nn, And(T.has(k2), T.ident(k2) == ident_of(s, r))), 'the result is a node of the tree')
                if w == '__find':
                    O(Implies(nn, k2 == key), 'the result has the key')
                elif w == '__upper_bound':
                    O(Implies(nn, lt(lay, key, k2)), 'the result has a larger key')
                    O(Implies(And(nn, T.has(y), lt(lay, key, y)), le(lay, k2, y)), 'the result has the least larger key')
                else:
                    O(Implies(And(nn, T.has(y)), le(lay, k2, y)), 'the result has the least key')
        elif w == '__copy':
            wf = []
            try:
                V2 = view(ex, s, r, lay, owned, wf)
            except Bad as e:
                return O(FALSE, 'the copy is a tree of its own: %s' % e)
            for c, m in wf:
                O(c, m)
            O(V2.has(y) == T.has(y), 'the copy has the keys')
            O(Implies(T.has(y), V2.val(y) == T.val(y)), 'the copy has the values')
            null = TRUE if r.obj is None else (FALSE if r.nullc is None else r.nullc)
            O(Implies(V2.has(y), OWN(V2.ident(y)) != 0), 'the copy has new nodes')
            O(null == T.empty, 'the copy is empty exactly when the tree is')
        elif w == '__insert':
            c = s.mem[sret.obj].cells
            try:
                rp, mp, p, fl = c[0][1], c[8][1], c[16][1], c[24][1]
            except KeyError:
                return O(FALSE, 'the result is set')
            wf = []
            try:
                V = view(ex, s, rp, lay, owned, wf)
            except Bad as e:
                return O(FALSE, 'the result is a search tree: %s' % e)
            for cc, m in wf:
                O(cc, m)
            O(FALSE if rp.obj is None else TRUE if rp.nullc is None else Not(rp.nullc), 'the result is not empty')
            O(V.has(y) == Or(T.has(y), y == key), 'the keys are the old ones and the inserted one')
            O(Implies(T.has(y), And(V.val(y) == T.val(y), V.ident(y) == T.ident(y))), 'old entries keep value and address')
            O(Implies(Not(T.has(key)), V.val(key) == ent[lay.val][1]), 'a new entry has the given value')
            O(Implies(Not(T.has(key)), OWN(V.ident(key)) != 0), 'a new entry is a new node')
            O(z3.BoolVal(core.same_ptr(mp, this) if isinstance(mp, Ptr) else False), 'the iterator belongs to the map')
            if not isinstance(p, Ptr) or p.obj is None or p.sub:
                return O(FALSE, 'the iterator designates a node')
            O(TRUE if p.nullc is None else Not(p.nullc), 'the iterator designates a node')
            O(ident_of(s, p) == V.ident(key), 'the iterator designates the entry of the key')
            fl = ex.coerce(s, fl, _I8)
            O(fl == z3.If(T.has(key), bv(0, 8), bv(1, 8)), 'the flag says whether the key is new')
        for i, o in s.mem.items():
            if not o.live:
                continue
            if o.kind in ('new', 'new[]', 'malloc', 'tree') and i not in owned:
                a = getattr(o, 'absent', None)
                O(a if a is not None else FALSE, 'no node is lost')
            if w not in ('__insert', '__copy') and o.kind == 'global' and i not in known and not o.ro:
                O(FALSE, 'touches global state')


class _T8:
    k = 'int'
    bits = 8
    size = store = 1


_I8 = _T8()


def candidates(mod):
    out = []
    for f in mod.funcs.values():
        m = _FN.match(f.dem)
        if m and not f.decl and m.group(2) in BITS and m.group(3) in BITS:
            out.append((f.name, f.dem))
    return out


def install(ex, syms):
    for f in ex.mod.funcs.values():
        if f.name in syms and _FN.match(f.dem):
            ex.contracts.append(TreeFn(ex, f))


# ---------------------------------------------------------------- parameters of the contract files: TMap<K, V>
_PARAM = re.compile(r'^TMap<([a-z ]+), ([a-z ]+)>( const)?&$')


def param(ex, st, p):
    m = _PARAM.match(p.type)
    if not m:
        return False
    name = 'nanostl::map<%s, %s>' % (m.group(1), m.group(2))
    lay = layout(ex, name, m.group(1), m.group(2))
    p.kind = 'map'
    root, T = new_tree(ex, st, lay, p.name)
    origin(st, T, uid())
    oid = ex.newobj(st, StructObj(8, 'param', {0: (8, Ptr(root, bv(0), 0, T.empty))}, p.name))
    p.val = Ptr(oid)
    p.T = T
    ex.__dict__.setdefault('tmaps', {})[oid] = T

    def finish(ex, s, owned):
        c = s.mem[oid].cells.get(0)
        seen, wf = [], []
        try:
            view(ex, s, c[1], lay, seen, wf)
        except Bad as e:
            ex.oblige(s, FALSE, 'invariant', None, '%s: %s' % (p.name, e))
            return
        for cc, msg in wf:
            ex.oblige(s, simp(cc), 'invariant', None, p.name + ': ' + msg)
        for i in seen:
            if i in owned:
                ex.oblige(s, FALSE, 'ownership', None, 'two objects own the same storage')
            owned.add(i)
    p.finish = finish
    p.model = lambda ev: (_ for _ in ()).throw(Unsupported('no concrete tree'))
    return True


_OBS = re.compile(r'^TMap<[a-z ]+, [a-z ]+>::(has|val)\(')


def builtin(F):
    m = _OBS.match(F.dem)
    if not m or not F.decl:
        return None

    def h(ex, st, I, a):
        T = ex.tmaps[a[0].obj]
        x = ex.num(a[1])
        return [(st, simp(T.has(x) if m.group(1) == 'has' else T.vfn(x)))]
    return h


# ---------------------------------------------------------------- loops that walk down a tree
class NoDescent(Exception):
    pass


class Descent:
    """A loop whose loop-carried pointers walk down a search tree.  A pointer that moves to children is the interval (lo, hi) of
    the subtree it designates, any other is null or the node with some key.  The invariants relate intervals, remembered nodes
    and the keys the loop compares with; they are proved on entry and for one arbitrary iteration (Houdini).  Every iteration has
    to make an interval smaller."""

    def __init__(self, ex, F, lp, st, prev):
        self.ex, self.F, self.lp, self.prev = ex, F, lp, prev
        self.st = st
        self.phis = [I for I in F.blocks[lp.header].insts if I.op == 'phi']

    def place(self, s, v):
        """(root, lo, hi) when v designates a subtree"""
        o = s.mem.get(v.obj)
        if not isinstance(v.idx, z3.ExprRef) or not (isc(simp(v.idx)) and cval(simp(v.idx)) == 0) or v.sub:
            raise NoDescent('pointer into a node')
        if isinstance(o, TreeObj):
            return (v.obj,) + ends(o.lay)
        if isinstance(o, SubObj):
            r = chase(s, o.tree)
            if s.mem[r].sym != o.tsym:
                raise NoDescent('the tree has changed')
            return r, o.lo, o.hi
        return None

    def node(self, s, v, lay):
        """(root or None, null, key)"""
        if v.obj is None:
            return None, TRUE, bv(0, lay.kbits)
        if v.sub or not (isc(simp(v.idx)) and cval(simp(v.idx)) == 0):
            raise NoDescent('pointer into a node')
        o = s.mem.get(v.obj)
        null = FALSE if v.nullc is None else v.nullc
        if isinstance(o, TreeObj):
            return v.obj, null, o.rootkey
        if isinstance(o, InnerObj):
            return chase(s, o.tree), null, o.key
        raise NoDescent('pointer to something else')

    def header(self, assume):
        ex = self.ex
        H = self.st.copy()
        H.abstract = True
        W = self.lay.kbits + 2
        self.env = {}
        T = H.mem[self.root]
        for i, kind in self.kinds.items():
            if kind == 'pos':
                lo, hi = fresh('lo', W), fresh('hi', W)
                self.env[i] = (lo, hi)
                H.locals[i] = subtree(ex, H, self.root, lo, hi)
            elif kind == 'node':
                nq, kq = z3.Bool('nonode!%d' % uid()), fresh('node', self.lay.kbits)
                self.env[i] = (nq, kq)
                H.locals[i] = Ptr(ex.newobj(H, InnerObj(self.lay, self.root, kq, T.ident(kq))), bv(0), 0, nq)
            elif kind == 'bv':
                x = fresh('x', self.entry[i].size())
                self.env[i] = (x,)
                H.locals[i] = x
            elif kind == 'bool':
                x = z3.Bool('xb!%d' % uid())
                self.env[i] = (x,)
                H.locals[i] = x
            else:
                H.locals[i] = self.entry[i]
        for c in assume:
            H.assume(simp(c(self.env)))
        return H

    def body(self, H):
        ex = self.ex
        old, ex.blog = ex.blog, []
        ex.in_body += 1
        try:
            outs = ex.run_region(self.F, H, self.lp.header, self.prev, self.lp, True)
            self.blog = ex.blog
        finally:
            ex.in_body -= 1
            ex.blog = old
        return [o for o in outs if o[0] != 'back'], [o for o in outs if o[0] == 'back']

    def after(self, ref, o):
        """values of the loop-carried variables on a back edge"""
        ex = self.ex
        s = o[3]
        for oid, b in ref.items():
            if s.mem.get(oid) is not b:
                raise NoDescent('the loop changes memory')
        nxt = ex.eval_phis(self.F, s, self.lp.header, o[2])
        env = {}
        for i, kind in self.kinds.items():
            v = nxt[i]
            if kind in ('pos', 'node'):
                if not isinstance(v, Ptr):
                    raise NoDescent('indeterminate pointer')
                if kind == 'pos':
                    p = self.place(s, v) if v.obj is not None else None
                    if p is None or p[0] != self.root:
                        self.kinds[i] = 'node'
                        raise _Again()
                    env[i] = p[1:]
                else:
                    r, null, key = self.node(s, v, self.lay)
                    if r is not None and r != self.root:
                        raise NoDescent('several trees')
                    env[i] = (null, key)
            elif kind in ('bv', 'bool'):
                if isinstance(v, (Undef, Ptr, list)):
                    raise NoDescent('indeterminate value')
                env[i] = (v,)
            else:
                from .loops import val_eq
                if not val_eq(v, self.entry[i]):
                    raise NoDescent('loop-carried value of another kind')
        return s, env

    def start(self):
        ex, st = self.ex, self.st
        self.entry = ex.eval_phis(self.F, st, self.lp.header, self.prev)
        self.kinds = {}
        self.root = None
        for i, v in self.entry.items():
            if isinstance(v, Ptr) and v.obj is not None:
                p = self.place(st, v) if isinstance(st.mem.get(v.obj), LazyObj) or isinstance(st.mem.get(v.obj), SubObj) else None
                if p is not None:
                    if self.root not in (None, p[0]):
                        raise NoDescent('several trees')
                    self.root = p[0]
        if self.root is None:
            raise NoDescent('no tree')
        self.lay = st.mem[self.root].lay
        subtree(ex, st, self.root, *ends(self.lay))
        for i, v in self.entry.items():
            if isinstance(v, Ptr):
                o = st.mem.get(v.obj)
                if v.obj is None or isinstance(o, InnerObj) and not isinstance(o, SubObj):
                    self.kinds[i] = 'node'
                elif isinstance(o, (TreeObj, SubObj)):
                    self.kinds[i] = 'pos'
                else:
                    self.kinds[i] = 'same'
            elif isinstance(v, (Undef, list, core.Flt, core.FnPtr)):
                self.kinds[i] = 'same'
            else:
                self.kinds[i] = 'bool' if z3.is_bool(v) else 'bv'

    def entry_env(self):
        env = {}
        for i, kind in self.kinds.items():
            v = self.entry[i]
            if kind == 'pos':
                env[i] = self.place(self.st, v)[1:]
            elif kind == 'node':
                r, null, key = self.node(self.st, v, self.lay)
                if r is not None and r != self.root:
                    raise NoDescent('several trees')
                env[i] = (null, key)
            elif kind in ('bv', 'bool'):
                env[i] = (v,)
        return env

    def focus(self):
        """terms the loop compares keys with"""
        syms = set()
        for v in self.env.values():
            for t in v:
                syms |= free_syms(t)
        T = self.st.mem[self.root]
        out = {}
        todo = list(self.blog)
        done = set()
        while todo:
            c = todo.pop()
            if c.get_id() in done:
                continue
            done.add(c.get_id())
            if z3.is_bv(c) and c.size() == self.lay.kbits and not (free_syms(c) & syms) and T.rk.name() not in free_syms(c) and \
                    not any(a.decl().name() == T.rk.name() for a in uf_apps(c)):
                out[simp(c).get_id()] = simp(c)
                continue
            todo.extend(c.children())
        return list(out.values())[:6]

    def candidates(self, focus):
        lay = self.lay
        NEG, POS = ends(lay)
        T = self.st.mem[self.root]
        cs = []
        add = cs.append
        w = lambda k: wide(lay, k)
        P = [i for i, k in self.kinds.items() if k == 'pos']
        N = [i for i, k in self.kinds.items() if k == 'node']
        for i in P:
            add(lambda e, i=i: e[i][0] == NEG)
            add(lambda e, i=i: e[i][1] == POS)
            add(lambda e, i=i: e[i][0] < e[i][1])
            add(lambda e, i=i: NEG <= e[i][0])
            add(lambda e, i=i: e[i][1] <= POS)
            add(lambda e, i=i: Not(T.nul(e[i][0], e[i][1])))
            for f in focus:
                f = w(f)
                add(lambda e, i=i, f=f: e[i][0] < f)
                add(lambda e, i=i, f=f: e[i][0] <= f)
                add(lambda e, i=i, f=f: f < e[i][1])
                add(lambda e, i=i, f=f: f <= e[i][1])
        for q in N:
            add(lambda e, q=q: Not(e[q][0]))
            add(lambda e, q=q: Or(e[q][0], T.has(e[q][1])))
            for f in focus:
                for r in (lambda a, b: a < b, lambda a, b: a <= b, lambda a, b: b < a, lambda a, b: b <= a):
                    add(lambda e, q=q, f=f, r=r: Or(e[q][0], r(w(f), w(e[q][1]))))
            for i in P:
                add(lambda e, q=q, i=i: Implies(e[q][0], e[i][0] == NEG))
                add(lambda e, q=q, i=i: Implies(e[q][0], e[i][1] == POS))
                add(lambda e, q=q, i=i: Or(e[q][0], e[i][0] == w(e[q][1])))
                add(lambda e, q=q, i=i: Or(e[q][0], e[i][1] == w(e[q][1])))
            for f in focus:
                # (the remembered node has the key looked for, or nothing is remembered and the key is still ahead)
                add(lambda e, q=q, f=f: Implies(e[q][0], And(*[And(e[i][0] < w(f), w(f) < e[i][1]) for i in P])) if P else TRUE)
        for i, k in self.kinds.items():
            if k in ('bv', 'bool'):
                v = self.entry[i]
                add(lambda e, i=i, v=v: e[i][0] == v)
        return cs

    def run(self):
        ex = self.ex
        self.start()
        while True:
            try:
                return self.solve()
            except _Again:
                continue

    def solve(self):
        ex = self.ex
        H = self.header([])
        ref = dict(H.mem)
        ex.assume_mode += 1
        try:
            _, backs = self.body(H)
            for o in backs:
                self.after(ref, o)
        finally:
            ex.assume_mode -= 1
        e0 = self.entry_env()
        cs = [c for c in self.candidates(self.focus()) if ex.valid(self.st, simp(c(e0)))]
        while True:
            H = self.header(cs)
            ref = dict(H.mem)
            hd = H.copy()
            env = self.env
            ex.assume_mode += 1
            try:
                _, backs = self.body(H)
            finally:
                ex.assume_mode -= 1
            ends_ = [self.after(ref, o) for o in backs]
            keep = []
            for c in cs:
                if all(ex.valid(s, simp(c(e))) for s, e in ends_):
                    keep.append(c)
            if len(keep) == len(cs):
                break
            cs = keep
        ok = True
        for s, e in ends_:
            alts = []
            for i, k in self.kinds.items():
                if k == 'pos':
                    (a, b), (c, d) = env[i], e[i]
                    alts.append(And(a <= c, d <= b, Or(a < c, d < b)))
            if not alts or not ex.valid(s, Or(*alts)):
                ok = False
        ex.loop_report.append(dict(fn=self.F.dem, closed=0, invariants=len(cs), facts=0, arrays=0, terminates=ok))
        if not ok and not ex.assume_mode:
            ex.oblige(hd.copy(), FALSE, 'termination', self.F.blocks[self.lp.header].insts[-1], 'loop terminates')
        outs, _ = self.body(hd)
        return outs


class _Again(Exception):
    pass


def do_loop(ex, F, lp, st, prev):
    """None when the loop does not walk down a tree"""
    if not any(isinstance(o, (TreeObj, SubObj)) for o in st.mem.values()):
        return None
    try:
        return Descent(ex, F, lp, st.copy(), prev).run()
    except NoDescent as e:
        return None
