#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property from /repo's sources.

exit 0  every obligation discharged
exit 1  VIOLATION property=<id> replay=<report>
exit 2  the analysis could not be carried out (vanished anchor, parse error)
"""
import importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from sa.program import Program, AnalysisError, REPO
from sa.lib import Ctx


def known(prop):
    r = {}
    p = HERE + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                rest = l.split(' ', 2)[2]
                key, _, txt = rest.partition(' :: ')
                r[key.replace('key=', '', 1)] = txt
    return r


def main():
    if "--setup" in sys.argv:
        n = Program(); print("facts for %d units, %d functions" % (len(n.files), len(list(n.all())))); return 0
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    thorough = '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough'
    prop = args[0]
    t0 = time.time()
    os.makedirs(HERE + '/evidence', exist_ok=True)
    mod = importlib.import_module('sa.rules.' + prop.lower())
    try:
        prog = Program()
        cx = Ctx(prop, prog, thorough)
        mod.run(cx)
        if not cx.viol:
            for rule, n in getattr(mod, 'MIN', {}).items(): cx.need(rule, n)
    except AnalysisError as e:
        print('ANALYSIS-BROKEN property=%s %s' % (prop, e))
        traceback.print_exc()
        return 2
    kn = known(prop)
    new = {k: v for k, v in cx.viol.items() if k not in kn}
    for k, txt in kn.items():
        if k in cx.viol: print('KNOWN-FINDING: property=%s %s' % (prop, txt))
    nob = sum(len(x) for x in cx.obl.values())
    ndis = sum(1 for x in cx.obl.values() for v in x.values() if v)
    cov = {
        'explanation': mod.RULE if hasattr(mod, 'RULE') else (mod.__doc__ or ''),
        'obligations': nob, 'discharged': ndis,
        'rules': {r: {'instances': len(x), 'discharged': sum(1 for v in x.values() if v),
                      'sample': sorted(map(str, x))[:6]} for r, x in sorted(cx.obl.items())},
        'translation_units': len(prog.files),
        'functions_in_program': len(list(prog.all())),
        'functions_analysed': len(cx.stats['functions']),
        'paths_completed': cx.stats['paths'], 'abstract_steps': cx.stats['steps'],
        'calls_seen': cx.stats['calls'], 'calls_analysed_in_context': cx.stats['inlined'],
        'checker_cmd': 'python3 check.py ' + prop,
        'trusted_base': ['clang 18 front end and CFG', 'sa/ engine and standard-library models', 'this rule'],
    }
    if cx.notes: cov['notes'] = cx.notes
    ev = {'property': prop, 'tier': 'thorough' if thorough else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
          'level': getattr(mod, 'LEVEL', 'other'), 'coverage': cov, 'assumptions': getattr(mod, 'ASSUMES', []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    json.dump(ev, open('%s/evidence/%s.json' % (HERE, prop), 'w'), indent=1, default=str)
    print('%s: %d obligations, %d discharged, %d functions analysed, %.1f s' % (prop, nob, ndis, len(cx.stats['functions']), time.time() - t0))
    if new:
        rp = '%s/evidence/%s.violations.txt' % (HERE, prop)
        with open(rp, 'w') as f:
            for k, v in new.items():
                f.write('[%s] %s\n  at %s\n  %s\n' % (v.rule, k, v.where, v.msg))
                for t in v.trace: f.write('    via %s\n' % t)
        for k, v in list(new.items())[:12]:
            print('  [%s] %s: %s' % (v.rule, v.where, v.msg))
            if '-v' in sys.argv:
                print('     key=', k)
                for t in v.trace: print('       ', t)
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Exception:
        print('ANALYSIS-BROKEN: internal error of the check')
        traceback.print_exc()
        sys.exit(2)
