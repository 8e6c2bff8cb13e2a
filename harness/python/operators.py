"""W03 the generated Python operators: harness for crosshair. The module is generated from the repository (tools/generator, run by pycheck.py); the claim
comes from the operator pages: constructor parameters in documented order, required ones required, absent ones at the documented default."""
import glob, importlib.util, json as realjson, os, sys, types
import yaml
import helper
from helper import JSON, D, L, PLAIN, raises

REPO, GEN = helper.REPO, os.environ['VERIF_GEN']


def pages():
    r = []
    for lib in ('std', 'core'):
        for f in sorted(glob.glob(f'{REPO}/libs/{lib}/include/**/*.md', recursive=True)):
            t = open(f).read()
            if '---' not in t: continue
            s = yaml.safe_load(t.split('---')[1])['jsonschema']
            r.append((os.path.basename(f)[:-3], [(k, v, k in s['required']) for k, v in s['properties'].items() if k != 'type']))
    return r


class Api(types.ModuleType):
    """plays the compiled module: the validator accepts or refuses as the entry chooses"""
    def __init__(self):
        super().__init__('rtbotapi')
        self.refuse, self.asked = False, []

    def validateOperator(self, kind, text):
        self.asked.append((kind, L(text)))
        return D({'valid': False, 'error': 'refused because'} if self.refuse else {'valid': True})


def load():
    api, pkg = Api(), types.ModuleType('rtbot')
    pkg.rtbotapi = api
    old = {k: sys.modules.get(k) for k in ('rtbot', 'rtbot.rtbotapi', 'json')}
    sys.modules['rtbot'], sys.modules['rtbot.rtbotapi'], sys.modules['json'] = pkg, api, JSON
    try:
        spec = importlib.util.spec_from_file_location('rtbot_operators', f'{GEN}/jsonschema.py')
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
    finally:
        for k, v in old.items():
            if v is None: sys.modules.pop(k, None)
            else: sys.modules[k] = v
    return m, api


KINDS = pages()
ERROR = None
try: M, API = load()
except Exception as x: ERROR = x


def value(spec, v, n, b):
    t = spec.get('type')
    if 'enum' in spec: return spec['enum'][n % len(spec['enum'])]
    if t == 'string': return 'name'
    if t == 'integer': return n
    if t == 'boolean': return b
    if t == 'array': return [value(spec.get('items', {}), v, n, b), value(spec.get('items', {}), v + 1, n + 1, b)]
    return v


def one(kind, params, v, n, b, absent, refuse, positional):
    assert ERROR is None, f'the generated module does not load: {ERROR!r}'
    args, want, order = {}, {'type': kind}, []
    for i, (name, spec, required) in enumerate(params):
        x = value(spec, v, n, b)
        if required or not absent:
            args[name] = want[name] = x
            order.append(x)
        else: want[name] = spec.get('default')
    API.refuse, API.asked = refuse, []
    cls = getattr(M, kind)
    try:
        o = cls(*order) if positional else cls(**args)
        assert not refuse, 'an operator the library refuses is not built'
        assert dict(o) == want, f'{kind} describes itself as documented'
        assert o.validate()['valid']
    except Exception as x:
        if isinstance(x, AssertionError) or not refuse: raise
        assert 'refused because' in str(x), 'the reason is reported'
    assert API.asked[0] == (kind, want), 'the description is validated under its type'
    for name, spec, required in params:
        if required: assert raises(lambda: cls(**{k: x for k, x in args.items() if k != name})), f'{kind} needs {name}'


def chunk(i, k, v, n, b, absent, refuse, positional):
    for j, (kind, params) in enumerate(KINDS):
        if j % 8 == i and j // 8 == k: one(kind, params, v, n, b, absent, refuse, positional)


def kinds0(k: int, v: float, n: int, b: bool, absent: bool, refuse: bool, positional: bool) -> None:
    """
    pre: 0 <= k <= 4
    pre: v == v
    pre: 0 <= n
    post: True
    """
    chunk(0, k, v, n, b, absent, refuse, positional)


def kinds1(k: int, v: float, n: int, b: bool, absent: bool, refuse: bool, positional: bool) -> None:
    """
    pre: 0 <= k <= 4
    pre: v == v
    pre: 0 <= n
    post: True
    """
    chunk(1, k, v, n, b, absent, refuse, positional)


def kinds2(k: int, v: float, n: int, b: bool, absent: bool, refuse: bool, positional: bool) -> None:
    """
    pre: 0 <= k <= 4
    pre: v == v
    pre: 0 <= n
    post: True
    """
    chunk(2, k, v, n, b, absent, refuse, positional)


def kinds3(k: int, v: float, n: int, b: bool, absent: bool, refuse: bool, positional: bool) -> None:
    """
    pre: 0 <= k <= 4
    pre: v == v
    pre: 0 <= n
    post: True
    """
    chunk(3, k, v, n, b, absent, refuse, positional)


def kinds4(k: int, v: float, n: int, b: bool, absent: bool, refuse: bool, positional: bool) -> None:
    """
    pre: 0 <= k <= 4
    pre: v == v
    pre: 0 <= n
    post: True
    """
    chunk(4, k, v, n, b, absent, refuse, positional)


def kinds5(k: int, v: float, n: int, b: bool, absent: bool, refuse: bool, positional: bool) -> None:
    """
    pre: 0 <= k <= 4
    pre: v == v
    pre: 0 <= n
    post: True
    """
    chunk(5, k, v, n, b, absent, refuse, positional)


def kinds6(k: int, v: float, n: int, b: bool, absent: bool, refuse: bool, positional: bool) -> None:
    """
    pre: 0 <= k <= 4
    pre: v == v
    pre: 0 <= n
    post: True
    """
    chunk(6, k, v, n, b, absent, refuse, positional)


def kinds7(k: int, v: float, n: int, b: bool, absent: bool, refuse: bool, positional: bool) -> None:
    """
    pre: 0 <= k <= 4
    pre: v == v
    pre: 0 <= n
    post: True
    """
    chunk(7, k, v, n, b, absent, refuse, positional)


ENTRIES = ['kinds0', 'kinds1', 'kinds2', 'kinds3', 'kinds4', 'kinds5', 'kinds6', 'kinds7']
