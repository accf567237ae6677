#!/usr/bin/env python3
"""Dev tool: mutate.py OUT.jsonl [PROP...] - small AST mutants of the functions behind each property, run against the bounded checks."""
import ast, copy, json, os, subprocess, sys, shutil, tempfile, random
from concurrent.futures import ThreadPoolExecutor
B = 'udapi/block/'
C = 'udapi/core/'
T = {
 'C01': [(C + 'node.py', 'parent create_child remove is_descendant_of _shift_before_ord'), (C + 'root.py', 'flatten')],
 'C02': [(C + 'node.py', '_shift_before_ord shift_after_node shift_before_node shift_after_subtree shift_before_subtree remove')],
 'C03': [(C + 'node.py', 'descendants unordered_descendants children siblings prev_node next_node precedes is_leaf is_nonprojective is_nonprojective_gap __call__ is_descendant_of'),
         (C + 'root.py', 'descendants descendants_and_empty is_descendant_of')],
 'C04': [(C + 'dualdict.py', '*'), (C + 'feats.py', '*'), (C + 'node.py', 'feats misc')],
 'C05': [(C + 'node.py', 'udeprel sdeprel deprel gloss no_space_after _get_attr')],
 'C06': [(C + 'node.py', 'deps raw_deps create_empty_child ord __lt__ __eq__ __hash__ remove shift_before_ord parent children _remove_deps *EmptyNode *OrdTuple')],
 'C07': [(B + 'read/conllu.py', '*')],
 'C08': [(B + 'write/conllu.py', '*')],
 'C09': [(C + 'mwt.py', '*'), (C + 'root.py', 'create_multiword_token token_descendants'), (C + 'node.py', 'compute_text'), (B + 'ud/removemwt.py', '*')],
 'C10': [(C + 'bundle.py', '*'), (C + 'document.py', '*'), (C + 'root.py', 'zone sent_id remove address'), (B + 'util/splitsentence.py', '*'), (B + 'util/joinsentence.py', '*'), (B + 'util/split.py', '*')],
 'C11': [(C + 'coref.py', '*CorefMention *CorefEntity nodes_to_span span_to_nodes _get_slots')],
 'C12': [(C + 'root.py', 'steal_nodes'), (B + 'util/splitsentence.py', '*'), (B + 'util/joinsentence.py', '*')],
 'C13': [(C + 'block.py', '*'), (C + 'run.py', '*')],
 'C14': [(B + 'tokenize/onwhitespace.py', '*'), (B + 'tokenize/simple.py', '*'), (B + 'segment/simple.py', '*'), (B + 'ud/setspaceafterfromtext.py', '*')],
 'C15': [(C + 'files.py', '*'), (C + 'basereader.py', '*'), (B + 'read/sentences.py', '*')],
 'C16': [(B + 'eval/f1.py', '*')],
 'C17': [(C + 'coref.py', 'load_coref_from_misc store_coref_to_misc _error *BridgingLinks *BridgingLink')],
 'C18': [(B + 'write/textmodetrees.py', '*')],
}


def funcs(tree, spec):
    want = spec.split()
    for n in tree.body:
        if isinstance(n, ast.FunctionDef) and (n.name in want or '*' in want):
            yield n
        if isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef) and (m.name in want or '*' in want or '*' + n.name in want):
                    yield m


def sites(fn):
    for n in ast.walk(fn):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = type(n.ops[0])
            m = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In],
                 ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}.get(o, [])
            for r in m:
                yield n, (lambda n=n, r=r: n.ops.__setitem__(0, r())), f'{o.__name__}->{r.__name__}'
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            yield n, (lambda n=n: setattr(n, 'value', n.value + 1)), f'{n.value}->{n.value + 1}'
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            yield n, (lambda n=n: setattr(n, 'value', not n.value)), f'not {n.value}'
        elif isinstance(n, ast.BoolOp):
            yield n, (lambda n=n: setattr(n, 'op', ast.Or() if isinstance(n.op, ast.And) else ast.And())), 'and<->or'
            for i in range(len(n.values)):
                yield n, (lambda n=n, i=i: n.values.pop(i)), f'drop operand {i}'
        elif isinstance(n, (ast.BinOp,)) and isinstance(n.op, (ast.Add, ast.Sub)):
            yield n, (lambda n=n: setattr(n, 'op', ast.Sub() if isinstance(n.op, ast.Add) else ast.Add())), '+<->-'
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield n, (lambda n=n: setattr(n, 'op', ast.UAdd())) if False else (lambda n=n: (setattr(n, 'operand', ast.UnaryOp(ast.Not(), n.operand)))), 'drop not'
        for f in ('body', 'orelse'):
            b = getattr(n, f, None)
            if isinstance(b, list):
                for i, s in enumerate(b):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Continue, ast.Break, ast.Return, ast.Raise)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                        if 'logging' in ast.unparse(s):
                            continue
                        yield s, (lambda b=b, i=i, s=s: b.__setitem__(i, ast.copy_location(ast.Pass(), s))), 'drop statement'
                    if isinstance(s, ast.If):
                        yield s, (lambda s=s: setattr(s, 'test', ast.Constant(False))), 'if False'
                        yield s, (lambda s=s: setattr(s, 'test', ast.Constant(True))), 'if True'


def run(job):
    prop, f, k, desc, src = job
    W = tempfile.mkdtemp(prefix='mut_', dir='/tmp/mut')
    try:
        R = W + '/repo'
        os.makedirs(R)
        subprocess.run(f'cp -a /repo/udapi {R}/udapi', shell=True)
        open(f'{R}/{f}', 'w').write(src)
        env = dict(os.environ, PYVC_REPO=R, PYTHONPATH=R, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        try:
            p = subprocess.run(['/opt/venv/bin/python', '/verif/conc/main.py', prop, '--seconds', SECS, '--out', W + '/out', '--json', W + '/o.json'], env=env, capture_output=True, text=True, timeout=200, cwd=W)
            d = json.load(open(W + '/o.json')) if os.path.exists(W + '/o.json') else None
            st = 'crash' if d is None else 'killed' if d.get('failures') else 'SURVIVED'
            if d is None:
                desc += ' ' + p.stderr[-150:]
        except subprocess.TimeoutExpired:
            st = 'timeout'
        return dict(prop=prop, file=f, desc=desc, status=st)
    finally:
        shutil.rmtree(W, ignore_errors=True)


SECS = os.environ.get('SECS', '12')
out = open(sys.argv[1], 'a')
props = sys.argv[2:] or list(T)
jobs = []
for prop in props:
    for f, spec in T[prop]:
        src = open('/repo/' + f).read()
        base = ast.parse(src)
        n = sum(1 for fn in funcs(base, spec) for _ in sites(fn))
        for k in range(n):
            t = ast.parse(src)
            j = -1
            for fn in funcs(t, spec):
                for node, act, d in sites(fn):
                    j += 1
                    if j == k:
                        line = ast.get_source_segment(src, node) or ''
                        desc = f'{fn.name}:{node.lineno} {d} :: {line.splitlines()[0][:100] if line else ""}'
                        act()
                        break
                if j == k:
                    break
            try:
                jobs.append((prop, f, k, desc, ast.unparse(ast.fix_missing_locations(t))))
            except Exception as e:
                pass
print(len(jobs), 'mutants')
mx = int(os.environ.get('MAXM', '0'))
if mx:
    random.Random(5).shuffle(jobs)
    jobs = jobs[:mx]
with ThreadPoolExecutor(int(os.environ.get('JOBS', '6'))) as ex:
    for r in ex.map(run, jobs):
        out.write(json.dumps(r) + '\n')
        out.flush()
