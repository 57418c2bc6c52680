#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property on /repo's current source.
exit 0: no unlisted violation; exit 1: VIOLATION line(s).  Evidence goes to evidence/<property>.json."""
import argparse, hashlib, json, os, multiprocessing, re, signal, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
import registry


def known():
    out = {}
    f = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'finding: property=(\S+) key=\[(.*?)\] (.*)', l)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out


def give_up(pid, spec, tier, evd, t0):
    """the analysis did not end in its time: nothing is decided (and nothing is reported)"""
    os.makedirs(evd, exist_ok=True)
    json.dump({'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
               'coverage': {'explanation': spec['explain'], 'rule': spec['rule'], 'obligations': 1, 'discharged': 0,
                            'undecided': [{'obligation': 'all', 'reason': 'the analysis did not end within its time limit'}]},
               'wall_s': round(time.time() - t0, 2), 'assumptions': registry.COMMON_ASSUMPTIONS, 'violations': []},
              open(os.path.join(evd, pid + '.json'), 'w'), indent=1)
    print('%s: not decided within the time limit' % pid, flush=True)
    for c in multiprocessing.active_children():
        c.kill()
    os._exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()
    pid = a.property
    spec = registry.CHECKS[pid]
    evd = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
    if tier == 'quick':
        signal.signal(signal.SIGALRM, lambda *_: give_up(pid, spec, tier, evd, t0))
        signal.alarm(int(os.environ.get('VERIF_LIMIT', '780')))
    res, P = registry.run(pid, tier)
    kf = known()
    viols, seen, finds = [], set(), []
    for prop, key, detail in res.viol:
        if prop != pid or key in seen:
            continue
        seen.add(key)
        if (pid, key) in kf:
            finds.append(key)
            print('KNOWN-FINDING: property=%s %s' % (pid, kf[(pid, key)]))
        else:
            viols.append((key, detail))
    rep = os.path.join(evd, 'replay')
    os.makedirs(rep, exist_ok=True)
    lines = []
    for n, (key, detail) in enumerate(viols):
        if n >= 8:
            print('  ... and %d more (see the evidence file)' % (len(viols) - n))
            break
        path = os.path.join(rep, '%s-%s.json' % (pid, hashlib.sha1(key.encode()).hexdigest()[:10]))
        json.dump({'property': pid, 'key': key, 'rule': spec['rule'], 'violation': detail}, open(path, 'w'), indent=1, default=str)
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
        w = detail.get('what') if isinstance(detail, dict) else str(detail)
        print('  %s: %s' % (key, w))
    fns = sorted(res.used)
    signal.alarm(0)
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': spec['explain'],
            'rule': spec['rule'],
            'obligations': len(res.decided) + len(res.undecided) + len({v[1].split('|')[0] for v in res.viol if v[0] == pid}),
            'discharged': len(res.decided),
            'undecided': [{'obligation': l, 'reason': r} for l, r in res.undecided],
            'obligations_decided': sorted(set(res.decided)),
            'paths_analysed': res.stats.get('leaves', 0),
            'comparisons': res.stats.get('compared', 0),
            'call_sites_resolved': res.stats.get('callsites', 0),
            'paths_cut_at_the_unrolling_bound': res.stats.get('cuts', 0),
            'functions_analysed': fns,
            'functions_analysed_count': len(fns),
        },
        'wall_s': round(time.time() - t0, 2),
        'assumptions': spec.get('assume', []) + registry.COMMON_ASSUMPTIONS,
        'violations': [{'key': k, 'detail': d} for k, d in viols] + [{'key': k, 'known': True} for k in finds],
    }
    ev['coverage'].update(getattr(res, 'extra', {}))
    json.dump(ev, open(os.path.join(evd, pid + '.json'), 'w'), indent=1, default=str)
    print('%s: %d obligations decided, %d undecided, %d functions, %d paths, %.1f s' % (
        pid, len(res.decided), len(res.undecided), len(fns), res.stats.get('leaves', 0), time.time() - t0))
    for l, r in res.undecided[:20]:
        print('  undecided: %s (%s)' % (l, r[:120]))
    for l in lines:
        print(l)
    return 1 if lines else 0


if __name__ == '__main__':
    sys.exit(main())
