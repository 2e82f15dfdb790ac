"""bin/check <id> [--tier quick|thorough] [--replay FILE] [--only SUBSTRING] [--workers N]"""
import argparse
import hashlib
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get('MC_OUT', HERE)

from mc import explore, rt          # rt replaces clock and randomness, so it comes before everything else


def known_findings():
    """{(property, key): text} of the lines 'property=<id> key=<key> <what fails>' (not of the fixed: ones)."""
    out = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('property='):
                a, b, text = line.split(None, 2)
                out[a.split('=', 1)[1], b.split('=', 1)[1]] = text
    return out


def describe(h, prefix, violation=None):
    log = []
    try:
        ch, out, vio, pruned = explore.execute(h.run, prefix, h.bound, log)
    except explore.Nondeterminism as e:
        return log, 'nondeterminism: %s' % e, None
    return log, vio, out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--budget', type=float)
    args = ap.parse_args()
    pid = args.property
    mod = importlib.import_module('mc.props.' + pid.lower())
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = 'thorough' if args.tier == 'thorough' else 'quick'

    if args.replay:
        rep = json.load(open(args.replay))
        harnesses = {h.name: h for h in mod.harnesses(rep['tier'])}
        h = harnesses[rep['harness']]
        log, vio, out = describe(h, [tuple(x) for x in rep['choices']])
        print('\n'.join(log))
        print('VIOLATED: ' + vio if vio else 'no violation; outcome %r' % (out,))
        return 1 if vio else 0

    t0 = explore.now()
    harnesses = mod.harnesses(tier)
    if os.environ.get('MC_CAP'):
        harnesses = [h for h in harnesses if h.name != 'sizes']
    if args.only:
        harnesses = [h for h in harnesses if args.only in h.name]
    names = [h.name for h in harnesses]
    assert len(set(names)) == len(names), 'duplicate harness names'
    budget = args.budget or (3000 if tier == 'thorough' else 600)
    findings = known_findings()
    status = 0
    shown = []
    for h in [h for h in harnesses if h.finding]:
        log, vio, out = describe(h, [])
        if vio is None:
            continue
        if (pid, h.finding) in findings:
            print('KNOWN-FINDING: property=%s %s' % (pid, findings[pid, h.finding]))
            shown.append(h.finding)
        else:
            status = report(pid, tier, h, [], vio, log)
    plain = [h for h in harnesses if not h.finding]
    result, errors = explore.explore_all(plain, args.workers, budget)
    violations = []
    for h in plain:
        for name, message, prefix in result[h.name].violations:
            violations.append((h, message, prefix))
    if errors and not violations:
        print('\n'.join(errors), file=sys.stderr)
        return 2
    for h, message, prefix in violations[:1]:
        for attempt in range(3):
            log, vio, out = describe(h, prefix)
            if vio is not None:
                break
        if vio is None:
            print('a violation of %s did not happen again when replayed:\n%s' % (h.name, message), file=sys.stderr)
            return 2
        status = report(pid, tier, h, prefix, vio, log)

    # the same choices must give the same execution
    replays = 0
    samples = []
    if status == 0:
        for h in plain:
            last = result[h.name].last
            if last is None:
                continue
            a = describe(h, last)
            b = describe(h, last)
            if a != b or a[1] is not None:
                print('%s: the same choices gave different executions:\n%r\n%r' % (h.name, a, b), file=sys.stderr)
                return 2
            replays += 2
            if len(samples) < 8:
                samples.append({'harness': h.name, 'choices': [c for c, n in last], 'steps': a[0][:60],
                                'outcome': repr(a[2])[:400]})
    total = explore.Stats()
    for st in result.values():
        total.merge(st)
    wall = explore.now() - t0
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': total.nodes, 'transitions': total.steps,
            'traces_validated_against_impl': total.executions,
            'exhaustive': not total.capped and status == 0 and not args.only,
            'pruned_as_redundant': total.pruned, 'distinct_outcomes': sum(len(s.outcomes) for s in result.values()),
            'longest_execution': total.max_depth,
            'replayed_twice_identically': replays,
            'explanation': 'Executions of the real code, one per leaf of the choice tree.  states: distinct nodes of the '
                           'tree (choice prefixes); transitions: choices taken, re-execution of prefixes included; '
                           'traces: complete executions, each compared with the oracle.',
            'harnesses': [{
                'name': h.name, 'about': h.about, 'cost_bound': h.bound,
                'executions': result[h.name].executions, 'states': result[h.name].nodes,
                'pruned': result[h.name].pruned, 'outcomes': len(result[h.name].outcomes),
                'complete': not result[h.name].capped} for h in plain],
            'samples': samples or [{'note': 'see the violation'}],
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'known_findings_shown': shown,
        'wall_s': round(wall, 2), 'violations': 1 if status else 0,
    }
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    print('%s %s: %d executions, %d states, %d transitions, %d outcomes%s, %.1f s' % (
        pid, tier, total.executions, total.nodes, total.steps, evidence['coverage']['distinct_outcomes'],
        ', CAPPED' if total.capped else '', wall))
    if args.only or os.environ.get('MC_VERBOSE'):
        for h in plain:
            st = result[h.name]
            print('  %-40s %8d executions %8d pruned %6d outcomes%s' % (
                h.name, st.executions, st.pruned, len(st.outcomes), ' CAPPED' if st.capped else ''))
    return status


def report(pid, tier, h, prefix, vio, log):
    os.makedirs(os.path.join(OUT, 'replays'), exist_ok=True)
    body = {'property': pid, 'tier': tier, 'harness': h.name, 'choices': [list(x) for x in prefix],
            'message': vio, 'log': log}
    name = '%s-%s.json' % (pid, hashlib.md5(json.dumps([h.name, body['choices']]).encode()).hexdigest()[:10])
    path = os.path.join('replays', name)
    with open(os.path.join(OUT, path), 'w') as f:
        json.dump(body, f, indent=1)
    print('harness %s' % h.name)
    for line in log[-80:]:
        print('  ' + line)
    print(vio)
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1


if __name__ == '__main__':
    try:
        code = main()
    except BaseException:
        traceback.print_exc()
        code = 2
    for mod in list(sys.modules.values()):
        if getattr(mod, '__name__', '').startswith('mc.props.') and hasattr(mod, 'cleanup'):
            mod.cleanup()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
