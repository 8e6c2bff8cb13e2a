"""W01 the Python helper: harness for crosshair (symbolic execution of the Python code with z3). Every function states its claim as assertions;
its arguments are the symbolic inputs. The helper module is loaded from the repository as it is now, with two stand-ins: the compiled
module rtbotapi (a program that echoes or holds back what it is sent, chosen by the inputs) and json (passes structures instead of text)."""
import importlib.util, json as realjson, os, sys, types
from typing import List, Optional

REPO = os.environ.get('VERIF_REPO', '/repo')


class Text:
    """what json.dumps gives: the structure, not to be looked into"""
    def __init__(self, o): self.o = o
    def __len__(self): return 2
    def __str__(self): return 'Text'


class FakeJson(types.ModuleType):
    def __init__(self):
        super().__init__('json')
        self.JSONDecodeError = ValueError
    @staticmethod
    def dumps(o, *a, **k): return Text(plain(o))
    @staticmethod
    def loads(t, *a, **k):
        assert isinstance(t, Text), 'text of the format is expected'
        return plain(t.o)


class Dice(types.ModuleType):
    """random numbers without symbolic digits"""
    def __init__(self):
        super().__init__('random')
        self.k = 0
    def randrange(self, a, b=None, step=1):
        self.k += 7919
        return self.k % a if b is None else a + self.k % (b - a)
    def randint(self, a, b): return self.randrange(a, b + 1)
    def getrandbits(self, n): return self.randrange(1 << n)
    def random(self): return self.randrange(1000) / 1000
    def choice(self, s): return s[self.randrange(len(s))]
    def choices(self, s, k=1, **kw): return [self.choice(s) for _ in range(k)]
    def seed(self, *a): pass


# a replay uses real texts
PLAIN = os.environ.get('VERIF_PLAIN')
JSON = realjson if PLAIN else FakeJson()
D, L = JSON.dumps, JSON.loads


def plain(o):
    if isinstance(o, dict): return {k: plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)): return [plain(v) for v in o]
    return o


class FakeApi(types.ModuleType):
    """plays the compiled module: entry ports p1, p2; every processed message is reported once per entry in `script` for its call"""
    def __init__(self):
        super().__init__('rtbotapi')
        self.reset([])

    def reset(self, script, refuse=False, ports=('i1', 'i2')):
        self.script, self.refuse, self.ports = script, refuse, list(ports)
        self.log, self.buffer, self.live, self.calls = [], [], {}, 0

    def validate(self, text):
        o = L(text)
        return D({'valid': True} if 'operators' in o and 'connections' in o and o.get('entryOperator') is not None else {'valid': False, 'error': 'missing'})

    def validateOperator(self, kind, text): return D({'valid': 'id' in L(text)} if 'id' in L(text) else {'valid': False, 'error': 'no id'})

    def createProgram(self, pid, text):
        self.log.append(('create', L(text)))
        if self.refuse: return D({'valid': False, 'error': 'refused by the library'})
        self.live[pid] = L(text)
        return ''

    def deleteProgram(self, pid):
        self.log.append(('delete',))
        return '1' if self.live.pop(pid, None) is not None else '0'

    def need(self, pid):
        if pid not in self.live: raise RuntimeError('Program was not found')

    def getProgramEntryPorts(self, pid):
        self.need(pid)
        return D(list(self.ports))

    def getProgramEntryOperatorId(self, pid):
        self.need(pid)
        return 'in'

    def addToMessageBuffer(self, pid, port, time, value):
        self.need(pid)
        self.buffer.append((port, time, value))
        self.log.append(('add', port, time, value))
        return '1'

    def answer(self, pid, debug):
        self.need(pid)
        self.log.append(('process', debug))
        r = {}
        n = self.script[self.calls] if self.calls < len(self.script) else 0
        self.calls += 1
        for port, time, value in self.buffer:
            if n: r.setdefault('in', {}).setdefault('o' + port[1:], []).append({'time': time, 'value': value})
            if n > 1: r.setdefault('out', {}).setdefault('o1', []).extend([{'time': time, 'value': value}, {'time': time + 1, 'value': -value}] + [{'time': time + k, 'value': value} for k in range(2, n)])
        self.buffer = []
        return D(r)

    def processMessageBuffer(self, pid): return self.answer(pid, False)
    def processMessageBufferDebug(self, pid): return self.answer(pid, True)


def load():
    api = FakeApi()
    pkg = types.ModuleType('rtbot')
    pkg.rtbotapi = api
    old = {k: sys.modules.get(k) for k in ('rtbot', 'rtbot.rtbotapi', 'json', 'random')}
    sys.modules['rtbot'], sys.modules['rtbot.rtbotapi'], sys.modules['json'], sys.modules['random'] = pkg, api, JSON, Dice()
    try:
        spec = importlib.util.spec_from_file_location('rtbot_helper', f'{REPO}/libs/wrappers/python/rtbot.py')
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
    finally:
        for k, v in old.items():
            if v is None: sys.modules.pop(k, None)
            else: sys.modules[k] = v
    return m, api


M, API = load()
FIELDS = ('title', 'description', 'date', 'author', 'license', 'entryOperator')


class Oper(dict):
    def __init__(self, **k): super().__init__(**k)
    def validate(self): return {'valid': True} if 'id' in self and self['type'] != 'Bad' else {'valid': False, 'error': 'not an operator'}


def raises(f):
    try: f()
    except AssertionError: raise
    except Exception: return True
    return False


def described(title: bool, description: bool, date: bool, author: bool, license: bool, entry: bool, two: bool) -> None:
    """
    post: True
    """
    ops = [{'id': 'a0', 'type': 'Input'}] + [{'id': 'a1', 'type': 'Count'}] * two
    cons = [{'from': 'a0', 'to': 'a1', 'fromPort': 'o1', 'toPort': 'i2'}] * two
    given = {}
    if title: given['title'] = ' T  t\n'
    if description: given['description'] = '\tD "d"\\ <é>\n\n  '
    if date: given['date'] = '2000-01-01'
    if author: given['author'] = ' A, B '
    if license: given['license'] = '0'
    if entry: given['entryOperator'] = 'a0'
    o = L(M.Program(operators=list(ops), connections=list(cons), **given).toJson())
    assert o == dict(given, operators=ops, connections=cons, apiVersion='v1'), 'what was given, no more and no less'


def read_back(title: bool, date: bool, n: float) -> None:
    """
    pre: n == n
    post: True
    """
    o = {'operators': [{'id': 'a', 'type': 'Input'}, {'id': 'b', 'type': 'Add', 'value': n}], 'connections': [{'from': 'a', 'to': 'b'}], 'apiVersion': 'v1', 'entryOperator': 'a'}
    if title: o['title'] = 'T'
    if date: o['date'] = '2000-01-01'
    assert L(M.parse(D(o)).toJson()) == o
    assert raises(lambda: M.parse(D({'operators': []})))


def edited(a: int, b: int) -> None:
    """
    pre: 0 <= a <= 3 and 0 <= b <= 3
    post: True
    """
    names = ('x', 'y', 'z', 'w')
    p, q = M.Program(entryOperator='x'), M.Program()
    for i in ('x', 'y', 'z'): p.addOperator(Oper(id=i, type='Identity'))
    r = raises(lambda: p.addConnection(names[a], names[b], 'o3', 'c2'))
    assert r == (a == 3 or b == 3), 'only operators of the program are connected'
    o = L(p.toJson())
    assert [x['id'] for x in o['operators']] == ['x', 'y', 'z']
    assert o['connections'] == ([] if r else [{'from': names[a], 'to': names[b], 'fromPort': 'o3', 'toPort': 'c2'}])
    if not r:
        p.addConnection('x', 'z')
        assert L(p.toJson())['connections'][1] == {'from': 'x', 'to': 'z', 'fromPort': 'o1', 'toPort': 'i1'}
    assert L(q.toJson())['operators'] == [] and L(q.toJson())['connections'] == [], 'programs share nothing'


def twice(a: int, v: float) -> None:
    """
    pre: 0 <= a <= 3
    pre: v == v
    post: True
    """
    p = M.Program(entryOperator='x')
    assert raises(lambda: p.addOperator(Oper(id='u', type='Bad'))), 'a wrong description is refused'
    assert L(p.toJson())['operators'] == []
    for i in ('x', 'y', 'z'): p.addOperator(Oper(id=i, type='Identity'))
    assert raises(lambda: p.addOperator(Oper(id=('x', 'y', 'z', 'w')[a], type='Add', value=v))) == (a < 3), 'an id is used once'
    assert raises(lambda: p.addOperator(Oper(type='Count'))), 'a description without id is refused'
    ops = L(p.toJson())['operators']
    assert ops[:3] == [{'id': i, 'type': 'Identity'} for i in ('x', 'y', 'z')]
    assert ops[3:] == ([{'id': 'w', 'type': 'Add', 'value': v}] if a == 3 else [])


def runs(data, script, ports=('i1', 'i2')):
    API.reset(script, ports=ports)
    p = M.Program(operators=[{'id': 'in', 'type': 'Input'}], connections=[], entryOperator='in', date='2000-01-01')
    got = M.Run(p, data).exec()
    want, log = {}, []
    for i, row in enumerate(data):
        adds = [('add', ports[j], row[0], v) for j, v in enumerate(row[1:])]
        log.append(adds)
        for _, port, time, value in adds:
            if script[i]: add(want, 'in:o' + port[1:], time, value)
            if script[i] > 1:
                add(want, 'out:o1', time, value)
                add(want, 'out:o1', time + 1, -value)
                for k in range(2, script[i]): add(want, 'out:o1', time + k, value)
    assert set(got) == set(want), 'every output that produced something is reported'
    for k in want:
        assert list(got[k]['time']) == want[k]['time'], 'times'
        assert list(got[k]['value']) == want[k]['value'], 'values'
    assert API.log[0][0] == 'create' and API.log[0][1] == L(p.toJson()), 'the program itself is run'
    sent, k = [], 0
    for x in API.log:
        if x[0] == 'add': sent.append(x)
        if x[0] == 'process':
            assert sent == log[k], 'one evaluation per row, values to the ports in order'
            sent, k = [], k + 1
    assert k == len(data) and sent == []
    assert API.live == {}, 'the program is released'


def add(w, key, time, value):
    e = w.setdefault(key, {'time': [], 'value': []})
    e['time'].append(time)
    e['value'].append(value)


def run_one_port(t0: int, t1: int, t2: int, a: float, b: float, s0: int, s1: int, s2: int) -> None:
    """
    pre: 0 <= s0 <= 2 and 0 <= s1 <= 2 and 0 <= s2 <= 2
    pre: a == a and b == b
    post: True
    """
    runs([[t0, a], [t1, b], [t2, a + 1]], [s0, s1, s2])


def run_two_ports(t0: int, t1: int, a: float, b: float, s0: int, s1: int) -> None:
    """
    pre: 0 <= s0 <= 2 and 0 <= s1 <= 2
    pre: a == a and b == b
    post: True
    """
    runs([[t0, a, b], [t1, b + 1, a + 2]], [s0, s1])


def run_named_ports(t0: int, t1: int, a: float, b: float, s: int) -> None:
    """
    pre: 0 <= s <= 2
    pre: a == a and b == b
    post: True
    """
    runs([[t0, a, b], [t1, a - 1]], [s, 1], ('i2', 'i1'))


def run_many(t0: int, t1: int, a: float, b: float, s: int) -> None:
    """
    pre: 0 <= s <= 2
    pre: a == a and b == b
    post: True
    """
    # an output of many messages per row
    runs([[t0, a], [t1, b], [t0, b]], [30, s, 40], ('i1',))


def run_long(t0: int, t1: int, a: float, b: float) -> None:
    """
    pre: a == a and b == b
    post: True
    """
    rows = [[3 * i, i / 2, -i] for i in range(40)]
    rows[0], rows[20], rows[39] = [t0, a, b], [t1, b, a], [t0, b, b]
    runs(rows, [i % 3 for i in range(40)])


def run_wide(t0: int, t1: int, a: float, b: float, s: int) -> None:
    """
    pre: 0 <= s <= 2
    pre: a == a and b == b
    post: True
    """
    # more ports than one digit counts
    runs([[t0, a] + [k / 2 for k in range(10)] + [b], [t1] + [-k for k in range(12)]], [1, s], tuple(f'i{k + 1}' for k in range(12)))


def run_nothing(s: int) -> None:
    """
    pre: 0 <= s <= 2
    post: True
    """
    runs([], [s])


def refused(t: int, v: float) -> None:
    """
    post: True
    """
    API.reset([1], refuse=True)
    p = M.Program(operators=[], connections=[], entryOperator='in')
    try: M.Run(p, [[t, v]]).exec()
    except Exception as x:
        assert 'refused by the library' in str(x), 'the reason given by the library is reported'
    else: assert False, 'a refused program is not run'
    assert all(x[0] != 'add' for x in API.log)


ENTRIES = ['described', 'read_back', 'edited', 'twice', 'run_one_port', 'run_two_ports', 'run_named_ports', 'run_many', 'run_long', 'run_wide', 'run_nothing', 'refused']
