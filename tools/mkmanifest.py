"""Rewrites MANIFEST.json from the list of built checks (mc/checks/*.py) and properties.jsonl."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
}
TECH = {
    'L01': 'bounded exhaustive enumeration of layer sizes, module trees and attention histories on the real code with stand-in kernels, exact definition and the replaced attention as reference',
    'T01': 'bounded exhaustive enumeration of programs, executed on the real tracer/code generator, eager PyTorch as the reference model',
    'T02': 'exhaustive fault-point enumeration and all action histories to a depth on the real tracer, state snapshots',
    'T03': 'explicit-state exploration of edit sequences, lock-step with a reference graph model',
    'P01': 'bounded exhaustive enumeration of networks x configurations on the real pruner, lock-step with a masked reference model',
    'P02': 'bounded exhaustive enumeration of pruning configurations, decided against a reference model of channel selection',
    'P03': 'exhaustive exploration of pruner operation histories against a fresh-pruner reference',
    'P04': 'bounded exhaustive enumeration of layer configurations and pruning states against a reference counter',
    'Q01': 'bounded exhaustive enumeration of programs x quantizer configurations on the real quantizer, float model as reference',
    'Q02': 'exhaustive enumeration of scheme configurations, decided against a reference model of the scheme',
    'Q03': 'bounded exhaustive enumeration of programs x schemes, fake-quantized model as the reference model',
    'Q04': 'exhaustive enumeration of layer-wise configurations and load/save histories on the real quantizer',
    'Q05': 'exhaustive enumeration of constructor configurations on the real modules, PyTorch layers as reference',
    'Q06': 'bounded exhaustive enumeration of layer chains and weight states on the real algorithms',
    'Q07': 'bounded exhaustive enumeration of programs, quantized model as reference',
    'V01': 'exhaustive enumeration of operator argument grids, TFLite interpreter against eager PyTorch',
    'V02': 'bounded exhaustive enumeration of operator sequences and DAGs x optimisation levels, TFLite interpreter against eager PyTorch',
    'V03': 'exhaustive enumeration of small input/output structures x transposes, TFLite interpreter against eager PyTorch',
    'V04': 'exhaustive enumeration of option combinations x programs, TFLite interpreter against eager PyTorch',
    'V05': 'exhaustive enumeration of layers x quantization options, stored weights against a reference quantization model',
    'V06': 'bounded exhaustive enumeration of quantized programs x schemes, TFLite interpreter against the PyTorch quantized model',
    'V07': 'exhaustive enumeration of conversion histories and hash seeds, byte comparison and flatbuffer decoding',
    'U01': 'exhaustive enumeration of accuracy histories on the real training loop against a reference state machine',
    'U02': 'exhaustive enumeration of converter configurations through export and parse',
}
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    f = f'{V}/mc/checks/{i.lower()}.py'
    if os.path.exists(f):
        vals = {}
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('LEVEL', 'NOTE', 'PROPERTY'):
                try:
                    vals[n.targets[0].id] = ast.literal_eval(n.value)
                except ValueError:
                    pass
        assert vals['PROPERTY'] == i
        checks.append({
            'property': i, 'quick_cmd': f'./check.sh {i} --tier quick', 'thorough_cmd': f'./check.sh {i} --tier thorough',
            'technique': TECH[i], 'level': vals['LEVEL'],
            'level_note': vals.get('NOTE', 'Exhaustive within the bounds written in DESIGN.md, executed on the real code; trusts eager PyTorch '
                                   '(and the TFLite interpreter where used) as the oracle; nothing is claimed beyond the bounds.'),
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check has been built for it yet')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'Pure Python: every check imports /repo in place. No hooks in /repo. Known findings: known_findings.jsonl.'}
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in na])
