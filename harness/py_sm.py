"""Y01, Y02: the Python part of sm_python, over stand-ins for the compiled modules."""
import datetime, enum, inspect, io, itertools, math, os, re, sys, time, types
import vfpy
from vfpy import part
import numpy

REPO = os.environ['VERIF_REPO']


class LoggingLevel(enum.IntEnum):
    All = 0; Finest = 1; Verbose = 2; Finer = 3; Trace = 4; Fine = 5; Debug = 6; Info = 7; Warn = 8; Error = 9; Fatal = 10


class Missing(Exception):
    pass


class ExtendibleValueStoreRef(object):
    """set needs an existing key; add makes a new value, in front of an old one of that name"""
    def __init__(self, d=()):
        self.d, self.log = dict(d), []

    def hasKey(self, k):
        return k in self.d


def _add(kind):
    def add(self, k, v):
        self.log.append(('add', kind, k, v)); self.d[k] = (kind, v)
    return add


def _set(kind):
    def put(self, k, v):
        self.log.append(('set', kind, k, v))
        if k not in self.d:
            raise Missing(k)
        self.d[k] = (kind, v)
    return put


for _k in ('String', 'Bool', 'Int', 'Double'):
    setattr(ExtendibleValueStoreRef, 'add' + _k, _add(_k)); setattr(ExtendibleValueStoreRef, 'set' + _k, _set(_k))
LEVEL, CALLS = [LoggingLevel.All], []
DEFAULT = object()


def load():
    lib = types.ModuleType('sm.libsm_python')
    lib.LoggingLevel, lib.ExtendibleValueStoreRef = LoggingLevel, ExtendibleValueStoreRef
    lib.getLoggingLevel = lambda: LEVEL[0]
    lib.setLoggingLevel = lambda l: LEVEL.__setitem__(0, l)
    lib.rawLog = lambda level, file, line, function, message: CALLS.append((DEFAULT, level, file, line, function, message))
    lib.rawLogNamed = lambda name, level, file, line, function, message: CALLS.append((name, level, file, line, function, message))
    ne = types.ModuleType('numpy_eigen'); ne.IsBroken = False
    mpl, axes, pylab = types.ModuleType('matplotlib'), types.ModuleType('matplotlib.axes'), types.ModuleType('pylab')
    mpl.axes = axes
    sys.modules.update({'sm.libsm_python': lib, 'numpy_eigen': ne, 'matplotlib': mpl, 'matplotlib.axes': axes, 'pylab': pylab})
    sys.path.insert(0, os.path.join(REPO, 'sm_python', 'python'))
    sys.dont_write_bytecode = True
    import sm
    return sm


NAMES = ['Finest', 'Verbose', 'Finer', 'Trace', 'Fine', 'Debug', 'Info', 'Warn', 'Error', 'Fatal']
# Call shapes: source of a function go(f) that calls f() in some surroundings, giving
# [(line, function)] of the places of the calls
SHAPES = {
    'module': 'R = [(L(), "<module>", F())]\n',
    'function': 'def a():\n    return [(L(), "a", F())]\nR = a()\n',
    'nested': 'def a():\n\n    def inner():\n        return [(L(), "inner", F())]\n    return inner()\nR = a()\n',
    'method': 'class C(object):\n    def m(self):\n        return [(L(), "m", F())]\n    @staticmethod\n    def s():\n        return [(L(), "s", F())]\nR = C().m() + C.s()\n',
    'class body': 'class K(object):\n    r = [(L(), "K", F())]\nR = K.r\n',
    'lambda': 'g = lambda: [(L(), "<lambda>", F())]\n\n\nR = g()\n',
    'generator': 'def g():\n    yield (L(), "g", F())\n\n    yield (L(), "g", F())\nR = list(g())\n',
    'repeated': 'def a(n):\n    return [(L(), "a", F())] + (a(n - 1) if n else [])\nR = a(2)\n',
    'loop': 'R = []\nfor i in range(3):\n    R.append((L(), "<module>", F()))\n',
    'after exception': 'def a():\n    try:\n        raise ValueError("x")\n    except ValueError:\n        return [(L(), "a", F())]\nR = a()\n',
}


def logging_case(c, sm, what, call, shape, threshold, want, messages):
    """call(message) logs; want(message) gives (name, level)."""
    for fi, fname in enumerate(('/some where/caller.py', 'rel.py')):
        for mi, m in enumerate(messages):
            c.cur('%s from %s in %s, threshold %s, message %r' % (what, shape, fname, threshold.name, m))
            LEVEL[0] = threshold
            del CALLS[:]
            ns = {'L': lambda: sys._getframe(1).f_lineno, 'F': None, 'M': m, 'sm': sm, 'LL': LoggingLevel}
            src = SHAPES[shape].replace('F()', call)
            exec(compile(src, fname, 'exec'), ns)
            name, level = want
            exp = [(name, level, fname, line, fn, m) for line, fn, _ in ns['R']] if level >= threshold else []
            got = list(CALLS)
            c.check(len(got) == len(exp), 'count', '%d messages are logged, %d expected' % (len(got), len(exp)))
            for g, e in zip(got, exp):
                for i, k in enumerate(('name', 'level', 'file', 'line', 'function', 'message')):
                    c.check(g[i] is e[i] if i in (0, 5) and e[i] is DEFAULT else g[i] == e[i] and (i != 1 or isinstance(g[i], LoggingLevel)), k, '%s is %r instead of %r' % (k, g[i], e[i]))
            c.check(all(r[2] is None for r in ns['R']), 'result', 'returns a value')
            c.state((what, shape, threshold, fi, mi)); c.transition(); c.trace(); c.eval(exp)


@part
def Y01_helpers(c):
    c.cur('import'); sm = load()
    msgs = ['hello', '', '100% {0} %s\n\xe9'] if c.thorough else ['100% {0} %s\n\xe9', '']
    for n in NAMES:
        for sh in SHAPES:
            for t in LoggingLevel:
                logging_case(c, sm, 'log' + n, 'sm.log%s(M)' % n, sh, t, (DEFAULT, LoggingLevel[n]), msgs)
                logging_case(c, sm, 'log%sNamed' % n, 'sm.log%sNamed("a stream", M)' % n, sh, t, ('a stream', LoggingLevel[n]), msgs)
    c.sample('logInfo in function a of caller.py, line 2: rawLog(Info, "caller.py", 2, "a", message)')


@part
def Y01_levels(c):
    c.cur('import'); sm = load()
    for l in LoggingLevel:
        for sh in SHAPES:
            for t in LoggingLevel:
                logging_case(c, sm, 'log(%s)' % l.name, 'sm.log(LL.%s, M)' % l.name, sh, t, (DEFAULT, l), ['m'])
                logging_case(c, sm, 'logNamed(%s)' % l.name, 'sm.logNamed("s.t", LL.%s, M)' % l.name, sh, t, ('s.t', l), ['m'])
    # stack depth: wrappers of the user pass the place of their own caller on
    for depth in range(1, 6):
        for named in (0, 1):
            for t in LoggingLevel:
                for l in LoggingLevel:
                    c.cur('%s with stackdepth %d, threshold %s, level %s' % ('logNamed' if named else 'log', depth, t.name, l.name))
                    src = 'def w1(m):\n    %s(LL.%s, m, %d)\n' % ('sm.logNamed' if named else 'sm.log', l.name, depth)
                    if named:
                        src = src.replace('(LL', '("n", LL')
                    for k in range(2, 6):
                        src += 'def w%d(m):\n    w%d(m)\n' % (k, k - 1)
                    src += 'w5("msg")\n'
                    LEVEL[0] = t; del CALLS[:]
                    exec(compile(src, 'w.py', 'exec'), {'sm': sm, 'LL': LoggingLevel})
                    exp = [('n' if named else DEFAULT, l, 'w.py', 2 * depth, 'w%d' % depth, 'msg')] if l >= t else []
                    c.check(CALLS == exp, 'stackdepth', 'logs %r instead of %r' % (CALLS, exp)); c.state((depth, named, t, l)); c.transition(); c.trace()
    # every history of changing the threshold and logging
    c.cur('threshold histories')
    for h in itertools.product(range(4), repeat=6 if c.thorough else 5):
        c.cur('history %r' % (h,)); del CALLS[:]; lv = LEVEL[0] = LoggingLevel.All; n = 0
        for x in h:
            if x == 0: sm.setLoggingLevel(LoggingLevel.Warn); lv = LoggingLevel.Warn
            elif x == 1: sm.setLoggingLevel(LoggingLevel.Debug); lv = LoggingLevel.Debug
            elif x == 2: sm.logInfo('i'); n += lv <= LoggingLevel.Info
            else: sm.logWarnNamed('n', 'w'); n += 1
        c.check(len(CALLS) == n, 'history', '%d messages instead of %d' % (len(CALLS), n)); c.state(h); c.transition(len(h)); c.trace()
    c.sample('log(Info, m, 2) in w1 called by w2: the place in w2')


@part
def Y02_store(c):
    c.cur('import'); sm = load()
    class S(str): pass
    class I(int): pass
    values = [('String', 'x'), ('String', ''), ('String', 'True'), ('String', S('s')), ('Bool', True), ('Bool', False), ('Int', 0), ('Int', 1), ('Int', -7), ('Int', 1 << 40), ('Int', I(3)), ('Double', 0.0), ('Double', -2.5), ('Double', float('inf')), ('Double', numpy.float64(1.5)),
              (None, None), (None, [1]), (None, {}), (None, b'bytes'), (None, 1j), (None, object())]
    for kind, v in values:
        for present in (None, 'String', 'Bool', 'Int', 'Double'):
            for add, force in ((None, None), (True, None), (False, None), (True, True), (True, False), (False, True), (False, False)):
                for form in range(2):
                    c.cur('%s %r, old value %s, add_if_missing %s, force_add %s, %s' % (kind, v, present, add, force, 'method' if form else 'function'))
                    e = ExtendibleValueStoreRef({'k': (present, 'old'), 'other': ('Int', 4)} if present else {'other': ('Int', 4)}); kw = {}
                    if add is not None: kw['add_if_missing'] = add
                    if force is not None: kw['force_add'] = force
                    LEVEL[0] = LoggingLevel.All; del CALLS[:]; threw = False
                    try:
                        r = e.set('k', v, **kw) if form else sm.setExtendableValueStoreValue(e, 'k', v, **kw)
                        c.check(r is None, 'result', 'returns %r' % (r,))
                    except Missing:
                        threw = True
                    A, Fo = add is not False, force is True
                    op = 'add' if A and (not present or Fo) else 'set'
                    exp = [(op, kind, 'k', v)] if kind else []
                    c.check(len(e.log) == len(exp) and all(a[:3] == b[:3] and a[3] is b[3] for a, b in zip(e.log, exp)), 'store', 'does %r instead of %r' % (e.log, exp))
                    c.check(threw == bool(kind and op == 'set' and not present), 'missing', 'the missing key is%s reported' % ('' if threw else ' not'))
                    c.check(e.d['other'] == ('Int', 4), 'other', 'another value changed')
                    c.check((len(CALLS) == 1 and CALLS[0][1] == LoggingLevel.Fatal) if kind is None else not CALLS, 'message', 'logs %r' % (CALLS,))
                    c.state((kind, repr(v), present, add, force, form)); c.transition(); c.trace(); c.eval(kind)
    # every history of setting two keys
    alpha = [(k, v, a, f) for k in 'ab' for v in (True, 1, 2.5, 's') for a, f in ((True, False), (True, True), (False, False))]
    for h in itertools.product(alpha, repeat=3 if c.thorough else 2):
        c.cur('history %r' % (h,)); e = ExtendibleValueStoreRef(); m = {}
        for k, v, a, f in h:
            kind = {str: 'String', bool: 'Bool', int: 'Int', float: 'Double'}[type(v)]
            try:
                e.set(k, v, a, f); ok = True
            except Missing:
                ok = False
            c.check(ok == (a or k in m), 'missing', 'key %s' % k)
            if ok: m[k] = (kind, v)
        c.check(e.d == m, 'history', 'the store holds %r instead of %r' % (e.d, m)); c.state(h); c.transition(len(h)); c.trace()
    c.sample('True, no old value: addBool')


class Out(object):
    def __init__(self): self.t, self.pending = '', False
    def write(self, s): self.t += s; self.pending = self.pending or bool(s)
    def flush(self): self.pending = False


def td(s):
    m = re.match(r'^(?:(-?\d+) days?, )?(\d+):(\d\d):(\d\d)(?:\.(\d+))?$', s)
    if not m: return None
    return int(m.group(1) or 0) * 86400 + int(m.group(2)) * 3600 + int(m.group(3)) * 60 + int(m.group(4)) + float('0.' + (m.group(5) or '0'))


def remaining(s):
    m = re.match(r'^(?:(\d+) ?h ?)?(?:(\d+) ?m ?)?(?:(\d+) ?s)?$', s.strip())
    if not m: return None
    h, mi, se = (int(x or 0) for x in m.groups())
    return h * 3600 + mi * 60 + se if mi < 60 and se < 60 else None


@part
def Y02_progress(c):
    c.cur('import'); sm = load(); real, clock = time.time, [0.0]; time.time = lambda: clock[0]; so = sys.stdout
    gaps = [0.0, 0.1, 0.3, 1.0, 61.0, 3661.5, 90000.25]
    try:
        for cls in (1, 2):
            ops = [('s', g, 1) for g in gaps] + ([('s', 0.3, 2), ('s', 59.9, 5), ('r', -1), ('r', 7)] if cls == 2 else [])
            depth = (4 if c.thorough else 3) + 1
            for total in (1, 3, 10) if not c.thorough else (1, 2, 3, 7, 10, 1000):
                for h in itertools.product(range(len(ops)), repeat=depth - 1):
                    c.cur('Progress%s(%d), history %s' % ('2' if cls == 2 else '', total, ['%s %s' % ops[x][:2] for x in h])); clock[0] = 1353320000.5
                    p = (sm.Progress2 if cls == 2 else sm.Progress)(total); n, it, start = total, None, 0; 
                    for x in (0,) + h:
                        o = ops[x]; sys.stdout = out = Out()
                        if o[0] == 'r':
                            p.reset() if o[1] == -1 else p.reset(o[1]); it = None; n = n if o[1] == -1 else o[1]
                            sys.stdout = so; c.check(out.t == '', 'reset-output', 'reset prints %r' % out.t); continue
                        clock[0] += o[1]
                        p.sample() if o[2] == 1 else p.sample(o[2])
                        sys.stdout = so
                        if it is None:
                            it, start = 0, clock[0]; c.check(out.t == '', 'first', 'the first sample prints %r' % out.t); continue
                        it += o[2]; el = clock[0] - start; per = el / it; c.eval()
                        if cls == 1:
                            m = re.match(r'^Progress (\d+) / (\d+)\nTime (.*) / (.*)  \((.*) \* (\d+)\) *\n$', out.t)
                            if not c.check(m, 'format', 'prints %r' % out.t): continue
                            c.check((int(m.group(1)), int(m.group(2)), int(m.group(6))) == (it, n, n), 'count', 'prints %r' % out.t)
                            for i, w in ((3, el), (4, per * n), (5, per)):
                                g = td(m.group(i)); c.check(g is not None and abs(g - w) <= 1e-6 + 1e-12 * w, 'time', 'prints %r for %g s' % (m.group(i), w))
                        else:
                            m = re.match(r'^\r *Progress (\d+) / (\d+) *\t *Time remaining: ([^\n]*?) *$', out.t)
                            if not c.check(m and '\n' not in out.t, 'format', 'prints %r' % out.t): continue
                            c.check((int(m.group(1)), int(m.group(2))) == (it, n), 'count', 'prints %r, not %d / %d' % (out.t, it, n))
                            w = max(0.0, per * n - el); g = remaining(m.group(3)); c.check(g is not None and -1e-3 <= w - g <= 1 + 1e-3, 'time', 'shows %r, %g s remain' % (m.group(3), w))
                            c.check(not out.pending, 'flush', 'the line is not flushed')
                    c.state((cls, total, h)); c.transition(len(h)); c.trace()
    finally:
        time.time = real; sys.stdout = so
    c.sample('Progress2(3), samples after 0.1, 0.3, 0.3 s: 2 / 3, then 3 / 3 with nothing remaining')


class Axis(object):
    def __init__(self): self.lines = []
    def plot3D(self, x, y, z, fmt, linewidth=None): self.lines.append((numpy.array([x, y, z], float).reshape(3, -1).T, fmt, linewidth))


@part
def Y02_frames(c):
    c.cur('import'); sm = load(); fn = sm.plotCoordinateFrame
    if isinstance(fn, types.ModuleType): fn = fn.plotCoordinateFrame
    rots = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product((1, -1), repeat=3):
            R = numpy.zeros((3, 3))
            for i in range(3): R[i, p[i]] = s[i]
            if numpy.linalg.det(R) > 0: rots.append(R)
    a = 0.3; rots.append(numpy.array([[math.cos(a), -math.sin(a), 0], [math.sin(a), math.cos(a), 0], [0, 0, 1.0]]).dot(rots[5]))
    for ri, R in enumerate(rots):
        for t in itertools.product((0.0, 1.0, -2.5), repeat=3):
            for size, lw in ((None, None), (1, 3), (0.25, 1), (10, 0.5), (0, 2), (-1, 3), (-2.5, 1), (1e-9, 2), (True, True)):
                for kind in range(3):
                    c.cur('rotation %d, translation %s, size %s, linewidth %s, kind %d' % (ri, t, size, lw, kind))
                    T = numpy.eye(4); T[:3, :3] = R; T[:3, 3] = t; A = Axis(); kw = {}
                    if size is not None: kw = dict(size=size, linewidth=lw)
                    arg = T if kind == 0 else T.tolist() if kind == 1 else numpy.asfortranarray(T); before = T.copy()
                    fn(A, arg, **kw) if kind or size is None else fn(A, arg, size, lw)
                    s, w = (1, 3) if size is None else (size, lw)
                    c.check((T == before).all(), 'const', 'the matrix is changed'); c.check(len(A.lines) == 3, 'lines', '%d lines' % len(A.lines))
                    want = {'r': T[:3, 3] + s * R[:, 0], 'g': T[:3, 3] + s * R[:, 1], 'b': T[:3, 3] + s * R[:, 2]}; seen = set()
                    for pts, f, l in A.lines:
                        seen.add(f[0]); c.check(f[0] in want and l == w, 'style', '%r, linewidth %r' % (f, l))
                        if f[0] in want:
                            c.check(pts.shape == (2, 3) and numpy.allclose(sorted(map(tuple, pts)), sorted([tuple(T[:3, 3]), tuple(want[f[0]])]), atol=1e-12, rtol=1e-12), 'axis', 'the %s axis goes through %r' % (f[0], pts.tolist()))
                    c.check(seen == set('rgb'), 'axes', 'axes %r' % sorted(seen)); c.eval(size != 0); c.state((ri, t, size, kind)); c.transition(); c.trace()
    c.sample('identity: r from the origin to (1,0,0), g to (0,1,0), b to (0,0,1)')


class Wx(object):
    """Stand-in of wx and of the canvases of matplotlib for it; what is shown when the main loop runs is recorded."""
    def __init__(self):
        w = self; self.apps, self.shown, self.problems = [], [], []
        m = self.wx = types.ModuleType('wx'); aui = m.aui = types.ModuleType('wx.aui')
        m.VERTICAL, m.HORIZONTAL, m.LEFT, m.EXPAND = 8, 4, 16, 8192

        class Window(object):
            def __init__(self, parent, id=-1, **kw):
                self.parent, self.kids, self.sizer, self.kw = parent, [], None, kw
                if parent is not None: parent.kids.append(self)
                elif not isinstance(self, m.Frame): w.problems.append('a %s without a parent' % type(self).__name__)
                if not w.apps: w.problems.append('a window is made before the application')
            def SetSizer(self, s, *a): self.sizer = s
            SetSizerAndFit = SetSizer
            def Layout(self): pass
            def Fit(self): pass
            def Center(self, *a): pass
            Centre, CenterOnScreen = Center, Center

        class Frame(Window):
            def __init__(self, parent, id=-1, title='', **kw): self.title, self.visible = title, False; Window.__init__(self, parent, id, **kw); w.frames.append(self)
            def Show(self, on=True): self.visible = on

        class AuiNotebook(Window):
            def __init__(self, parent, *a, **kw): self.pages = []; Window.__init__(self, parent, *a, **kw)
            def AddPage(self, page, name, *a):
                if page.parent is not self: w.problems.append('a page of another notebook')
                self.pages.append((name, page))

        class Canvas(Window):
            def __init__(self, parent, id, fig): self.figure = fig; Window.__init__(self, parent, id)

        class Toolbar(Window):
            def __init__(self, canvas): self.canvas, self.done = canvas, False; Window.__init__(self, canvas.parent)
            def Realize(self): self.done = True

        class BoxSizer(object):
            def __init__(self, *a): self.items = []
            def Add(self, x, *a): self.items.append(x)

        class App(object):
            def __init__(self, *a): w.apps.append(self)
            def MainLoop(self): w.shown.append([f for f in w.frames if f.visible])
        m.Window, m.Panel, m.Frame, m.BoxSizer, m.PySimpleApp, m.App = Window, type('Panel', (Window,), {}), Frame, BoxSizer, App, App
        aui.AuiNotebook = AuiNotebook
        ver = types.ModuleType('wxversion'); ver.ensureMinimal = lambda v: None
        be = types.ModuleType('matplotlib.backends'); bw = types.ModuleType('matplotlib.backends.backend_wxagg'); bw.FigureCanvasWxAgg, bw.NavigationToolbar2Wx = Canvas, Toolbar; be.backend_wxagg = bw
        self.frames = []
        sys.modules.update({'wx': m, 'wx.aui': aui, 'wxversion': ver, 'matplotlib.backends': be, 'matplotlib.backends.backend_wxagg': bw})

    def reset(self): del self.apps[:], self.shown[:], self.problems[:], self.frames[:]


class Figure(object):
    def __init__(self, n): self.n = n
    def set_figheight(self, h): pass
    def set_figwidth(self, w): pass
    def set_size_inches(self, *a, **kw): pass


def collect(win, kind):
    r = [win] if isinstance(win, kind) else []
    for k in win.kids: r += collect(k, kind)
    return r


@part
def Y02_collection(c):
    c.cur('import'); load(); w = Wx()
    import sm.PlotCollection as pc
    cls = pc if isinstance(pc, type) else pc.PlotCollection
    names, figs = ['a', 'tab two', ''], [Figure(0), Figure(1)]
    ops = [('add', n, f) for n in names for f in figs] + [('delete', n) for n in names] + [('show',)]
    depth = 4 if c.thorough else 3

    def look(p, want, title, size):
        w.reset(); p.show(); c.check(not w.problems, 'windows', '; '.join(w.problems))
        if not want: c.check(not w.shown and not w.frames, 'empty', 'an empty collection shows a window'); return
        if not c.check(len(w.shown) == 1 and len(w.shown[0]) == 1, 'shown', 'not one window is shown'): return
        fr = w.shown[0][0]; c.check(fr.title == title and fr.kw.get('size') == size, 'window', 'title %r, size %r' % (fr.title, fr.kw.get('size')))
        nb = collect(fr, w.wx.aui.AuiNotebook)
        if not c.check(len(nb) == 1, 'notebook', '%d notebooks' % len(nb)): return
        c.check(nb[0].parent.sizer is not None and nb[0] in nb[0].parent.sizer.items, 'layout', 'the notebook is not laid out')
        got = []
        for n, page in nb[0].pages:
            cv = [k for k in collect(page, w.wx.Window) if hasattr(k, 'figure')]; tb = [k for k in collect(page, w.wx.Window) if hasattr(k, 'done')]
            got.append((n, cv[0].figure if len(cv) == 1 else None))
            c.check(len(cv) == len(tb) == 1 and tb[0].canvas is cv[0] and tb[0].done and page.sizer is not None and page.sizer.items[:2] == [cv[0], tb[0]], 'page', 'the tab %r is not a figure over its tool bar' % n)
        c.check(got == want, 'tabs', 'the tabs are %r instead of %r' % ([(n, f and f.n) for n, f in got], [(n, f.n) for n, f in want]))

    for title, size in (('', (800, 600)), ('my window', (300, 200))):
        for d in range(depth + 1):
            for h in itertools.product(range(len(ops)), repeat=d):
                c.cur('window %r, %s' % (title, ', '.join(' '.join([ops[k][0]] + ['%r' % (getattr(x, 'n', x),) for x in ops[k][1:]]) for k in h)))
                p = cls(window_name=title, window_size=size) if title else cls(); other = cls('other'); want = []
                for k in h:
                    o = ops[k]
                    if o[0] == 'add':
                        p.add_figure(o[1], o[2]); at = [i for i, x in enumerate(want) if x[0] == o[1]]
                        if at: want[at[0]] = (o[1], o[2])
                        else: want.append((o[1], o[2]))
                    elif o[0] == 'delete': p.delete_figure(o[1]); want = [x for x in want if x[0] != o[1]]
                    else: look(p, want, title, size)
                look(p, want, title, size); look(p, want, title, size); look(other, [], 'other', (800, 600))
                c.eval(bool(want)); c.state((title, h)); c.transition(d + 1); c.trace()
    c.sample('add a, add b, delete a, add a: tabs b, a')


@part
def Y02_save_tight(c):
    c.cur('import'); load()
    import sm.saveFigTight as sv
    fn = sv if inspect.isfunction(sv) else sv.saveFigTight

    class Scale(object):
        def __init__(self, k): self.k = k
        def inverted(self): return Scale(1.0 / self.k)

    class Box(object):
        def __init__(self, *b): self.b = b
        def transformed(self, t): return Box(*[x * t.k for x in self.b])

    class Axes(object):
        def __init__(self, b): self.b = b
        def get_window_extent(self): return Box(*self.b)

    class Fig(object):
        def __init__(self, dpi, b): self.dpi_scale_trans, self.ax, self.saved = Scale(dpi), Axes(b), []
        def gca(self): return self.ax
        def savefig(self, name, **kw): self.saved.append((name, kw))
    for dpi in (1, 50, 72, 100.0, 300):
        for b in itertools.product((0, 80, 123.5), (0, 52.8), (200, 576), (300, 427.2)):
            c.cur('%s dpi, axes at %r' % (dpi, b)); f = Fig(dpi, b); fn(f, 'x/y.pdf')
            ok = len(f.saved) == 1 and f.saved[0][0] == 'x/y.pdf' and isinstance(f.saved[0][1].get('bbox_inches'), Box)
            c.check(ok, 'saved', 'the figure is not saved once with a box: %r' % (f.saved,))
            if ok: g = f.saved[0][1]['bbox_inches'].b; c.check(all(abs(x - y / float(dpi)) < 1e-12 * 600 for x, y in zip(g, b)), 'box', 'the box is %r inches' % (g,))
            c.eval(); c.state((dpi, b)); c.transition(); c.trace()
    c.sample('100 dpi, axes at (80, 52.8, 576, 427.2): saved with the box (0.8, 0.528, 5.76, 4.272) inches')


if __name__ == '__main__':
    sys.exit(vfpy.main())
