"""Mutation survey of the library (never of /repo itself: every mutant is a scratch copy of src).

  python3 tools/mutate.py list FILE...                       how many mutants
  python3 tools/mutate.py rerun IN.jsonl OUT.jsonl           survivors of IN again, checks only
  python3 tools/mutate.py run OUT.jsonl N SEED FILE...       sample N mutants over the files, run the stable tests, then the owners' checks

A line of OUT: file, line, change, 'tests' (killed by the stable tests), or the first check that reported, or 'SURVIVED'.
"""
import ast, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed
BASE = os.environ.get('MUT_SRC', '/repo/src')
SRC = BASE + '/actuarialmath'
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OWN = {'interest.py': 'C01 C02 C34', 'life.py': 'C03 C34', 'actuarial.py': 'C35 C05 C10', 'survival.py': 'C04 C35', 'lifetime.py': 'C05', 'fractional.py': 'C06',
       'insurance.py': 'C07 C08 C10 C11', 'annuity.py': 'C09 C10 C11', 'premiums.py': 'C12 C13', 'policyvalues.py': 'C17 C14 C15 C16', 'reserves.py': 'C18 C19',
       'lifetable.py': 'C20 C21', 'selectlife.py': 'C22 C23', 'sult.py': 'C24', 'recursion.py': 'C26 C27 C25', 'mortalitylaws.py': 'C28', 'constantforce.py': 'C29',
       'extrarisk.py': 'C30', 'mthly.py': 'C31', 'udd.py': 'C32', 'woolhouse.py': 'C33'}
EXTRA = {'annuity.py': ' C38', 'insurance.py': ' C38', 'policyvalues.py': ' C38', 'reserves.py': ' C38', 'recursion.py': ' C37'}
OWN = {f: os.environ.get('OWNERS') or c + EXTRA.get(f, '') + ' C39 C36' for f, c in OWN.items()}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '=='}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.FloorDiv: '/'}
CALL = {'min': 'max', 'max': 'min', 'ceil': 'floor', 'floor': 'ceil'}
VARS = ['x', 's', 't', 'u', 'n', 'b', 'm', 'r', 'moment', 'endowment']

def mutants(path):
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines: off.append(off[-1] + len(l.encode()))
    raw = src.encode()
    pos = lambda n, end=False: off[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)
    text = lambda n: raw[pos(n):pos(n, True)].decode()
    out = []
    def put(n, a, b, new, what): out.append((n.lineno, what, raw[:a] + new.encode() + raw[b:]))
    def rep(n, new, what=None): put(n, pos(n), pos(n, True), new, f"{what or text(n)[:60]} => {new[:60]}")
    def between(a, b): return pos(a, True), pos(b)
    def walk(n, params, annot=False):
        if isinstance(n, ast.If) and n.col_offset == 0: return
        if isinstance(n, ast.Raise): return
        if isinstance(n, ast.Assert):
            put(n, pos(n), pos(n, True), 'pass', f"{text(n)[:60]} => pass"), walk(n.test, params)
            return
        if isinstance(n, ast.JoinedStr): return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): return
        if isinstance(n, ast.FunctionDef):
            params = [a.arg for a in n.args.args if a.arg in VARS]
            for d in n.args.defaults: walk(d, params)
            for c in n.body: walk(c, params)
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            a, b = between(n.left, n.comparators[0]); put(n, a, b, f" {CMP[type(n.ops[0])]} ", f"{text(n)[:60]} => {CMP[type(n.ops[0])]}")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, (ast.JoinedStr,)) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            a, b = between(n.left, n.right)
            gap = raw[a:b].decode()
            op = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**', ast.FloorDiv: '//'}[type(n.op)]
            if gap.count(op) == 1 and '(' not in gap and ')' not in gap:
                put(n, a, b, gap.replace(op, BIN[type(n.op)]), f"{text(n)[:60]} => {BIN[type(n.op)]}")
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            rep(n, repr(n.value + 1))
            if n.value > 0: rep(n, repr(n.value - 1))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool): rep(n, repr(not n.value))
        if isinstance(n, ast.BoolOp):
            op, new = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
            for l, r in zip(n.values, n.values[1:]):
                a, b = between(l, r); gap = raw[a:b].decode()
                if gap.count(op) == 1: put(n, a, b, gap.replace(op, new), f"{text(n)[:60]} => {new}")
            for v in n.values: rep(v, 'True' if op == 'and' else 'False')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not): rep(n, f"bool({text(n.operand)})")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub): rep(n, text(n.operand))
        if isinstance(n, ast.IfExp): rep(n, f"({text(n.body)})"), rep(n, f"({text(n.orelse)})")
        if isinstance(n, ast.If) and n.lineno == n.test.lineno: rep(n.test, f"True"), rep(n.test, "False")
        if isinstance(n, ast.Call):
            nm = getattr(n.func, 'attr', getattr(n.func, 'id', ''))
            if nm in CALL: put(n, pos(n.func, True) - len(nm), pos(n.func, True), CALL[nm], f"{text(n)[:60]} => {CALL[nm]}")
            for k in n.keywords:
                if k.arg:
                    a, b = pos(k), pos(k, True)
                    while raw[b:b + 1] in b' \n' and b < len(raw): b += 1
                    if raw[b:b + 1] == b',': b += 1
                    put(k, a, b, '', f"drop {text(k)[:40]} of {nm}")
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in params and len(params) > 1:
            o = [p for p in params if p != n.id]
            rep(n, o[(n.col_offset + n.lineno) % len(o)])
        if isinstance(n, (ast.Assign, ast.AugAssign)) and n.lineno == n.end_lineno: rep(n, 'pass')
        for f, v in ast.iter_fields(n):
            if f in ('annotation', 'returns', 'decorator_list'): continue
            for c in v if isinstance(v, list) else [v]:
                if isinstance(c, ast.AST): walk(c, params)
    walk(ast.parse(src), [])
    seen, good = set(), []
    for ln, what, new in out:
        try: d = ast.dump(ast.parse(new))
        except (SyntaxError, ValueError): continue
        if d not in seen: seen.add(d); good.append((ln, what, new))
    return good

STABLE = None
def tests(src):
    """the stable tests, in a process of their own; stops at the first failure"""
    code = f'''
import sys, signal, os, json, io, contextlib
sys.path.insert(0, {src!r}); sys.path.insert(0, '/opt/vp')
sys.argv = ['x', '/dev/null']
s = open('/opt/vp/run_scripts.py').read().rsplit('main()', 1)[0]
g = dict(__name__='r'); exec(s, g)
st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def w(name, ok):
    if name in st and not ok: os._exit(9)
g['run_faml'](g['groups'](open(g['FAML']).read()), w)
'''
    env = dict(os.environ, PYTHONPATH=src, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', MPLCONFIGDIR='/tmp/mut/mpl', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONHASHSEED='0')
    try:
        if subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-c', code], env=env, capture_output=True, timeout=90).returncode: return False
        for f in ('fix.py', 'test_changes.py'):
            if f'tests/{f}::script' in STABLE and subprocess.run(['/opt/venv/bin/python', f'/repo/tests/{f}'], env=env, capture_output=True, timeout=120).returncode: return False
    except subprocess.TimeoutExpired: return False
    return True

def one(job):
    f, ln, what, new, owners, early, test = job
    d = tempfile.mkdtemp(prefix='m', dir='/tmp/mut')
    try:
        shutil.copytree(BASE, d + '/src', ignore=shutil.ignore_patterns('__pycache__'))
        open(f'{d}/src/actuarialmath/{f}', 'wb').write(new)
        rec = dict(file=f, line=ln, change=what)
        if test and not tests(d + '/src'): return dict(rec, result='tests')
        got = []
        for p in owners:
            try:
                r = subprocess.run(['/opt/venv/bin/python', '-B', ROOT + '/run.py', p], cwd=ROOT, capture_output=True, text=True, timeout=300,
                                   env=dict(os.environ, VERIF_REPO_SRC=d + '/src', VERIF_OUT=d, VERIF_SEED='1', VERIF_TIER='quick'))
                hit = r.returncode == 1 and 'VIOLATION' in r.stdout
            except subprocess.TimeoutExpired: hit = None
            if hit or hit is None:
                got.append(p if hit else p + '?')
                if early: break
        rec['source'] = new.decode().splitlines()[ln - 1].strip()
        return dict(rec, result=' '.join(got) or 'SURVIVED')
    finally:
        shutil.rmtree(d, ignore_errors=True)

def main():
    global STABLE
    STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    os.makedirs('/tmp/mut', exist_ok=True)
    if sys.argv[1] == 'list':
        for f in sys.argv[2:] or OWN: print(f, len(mutants(f'{SRC}/{f}')))
        return
    if sys.argv[1] == 'rerun':      # survivors (and timeouts) of IN.jsonl again, without the tests
        old = [r for r in map(json.loads, open(sys.argv[2])) if r['result'] == 'SURVIVED' or '?' in r['result']]
        want = {(r['file'], r['line'], r['change']) for r in old}
        jobs = [(f, ln, w, new, OWN[f].split(), True, False) for f in OWN for ln, w, new in mutants(f'{SRC}/{f}') if (f, ln, w) in want]
        with ThreadPoolExecutor(int(os.environ.get('JOBS', 5))) as ex, open(sys.argv[3], 'a') as o:
            for f in as_completed([ex.submit(one, j) for j in jobs]):
                r = f.result(); o.write(json.dumps(r) + '\n'); o.flush()
        return
    out, n, seed, files = sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5:] or list(OWN)
    done = {(r['file'], r['line'], r['change']) for r in map(json.loads, open(out))} if os.path.exists(out) else set()
    jobs = [(f, ln, w, new, OWN[f].split(), True, True) for f in files for ln, w, new in mutants(f'{SRC}/{f}') if (f, ln, w) not in done]
    random.Random(seed).shuffle(jobs)
    with ThreadPoolExecutor(int(os.environ.get('JOBS', 5))) as ex, open(out, 'a') as o:
        for f in as_completed([ex.submit(one, j) for j in jobs[:n]]):
            r = f.result(); o.write(json.dumps(r) + '\n'); o.flush()
main()
