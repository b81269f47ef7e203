#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough : decide one property against /repo's working tree.

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pbtlib as L
from props import PROPS

KNOWN = os.path.join(L.VERIF, 'known_findings.txt')


def known_findings(prop):
    """lines 'finding: property=<id> target=<label> match=<regex> case=<file> what=<text>'"""
    r = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'finding: property=(\S+) target=(\S+) match="(.*?)" case=(\S+) what=(.*)', line)
            if m and m.group(1) == prop:
                r.append(dict(target=m.group(2), match=m.group(3), case=os.path.join(L.VERIF, m.group(4)), what=m.group(5).strip()))
    return r


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    cfg = PROPS[prop]
    t0 = time.time()
    budget = float(os.environ.get('PBT_SECONDS') or (cfg.get('quick', 36) if tier == 'quick' else cfg.get('thorough', 420)))
    work = tempfile.mkdtemp(prefix='pbt-%s-' % prop)
    os.makedirs(os.path.join(L.VERIF, 'evidence'), exist_ok=True)
    replays = os.path.join(L.VERIF, 'replays')
    os.makedirs(replays, exist_ok=True)
    violations, knowns = [], []
    stats = {}
    try:
        targets = cfg['targets']
        # build every distinct executable once, side by side
        specs = {}
        for t in targets:
            specs.setdefault(t['exe'], None)
        with cf.ThreadPoolExecutor(8) as ex:
            futs = {k: ex.submit(L.build_exe, k, work) for k in specs}
            for k, f in futs.items():
                specs[k] = f.result()
        build_s = time.time() - t0
        nprop = {}
        for t in targets:
            nprop[t['prop']] = nprop.get(t['prop'], 0) + 1
        label = lambda t: t['prop'] if nprop[t['prop']] == 1 else '%s.%s' % (t['prop'], t['exe'])
        total_share = sum(t.get('share', 1.0) for t in targets)
        finds = known_findings(prop)

        def confirm(argv, path):
            msgs = []
            for _ in range(3):
                rc, err = L.replay(argv, path)
                m = L.classify(rc, err) if rc != 2 else None
                if m is None:
                    return None
                msgs.append(m)
            return msgs[-1]

        for t in targets:
            argv = specs[t['exe']]
            # saved cases of defects repaired earlier
            d = os.path.join(L.VERIF, 'regress', t['prop'])
            saved = sorted(os.listdir(d)) if os.path.isdir(d) else []
            nreg = 0
            for f in saved:
                p = os.path.join(d, f)
                if any(k['case'] == p for k in finds):
                    continue
                rc, err = L.replay(argv, p)
                if rc == 2:
                    raise L.CheckError('cannot replay %s: %s' % (p, err))
                nreg += 1
                m = L.classify(rc, err)
                if m and confirm(argv, p):
                    out = os.path.join(replays, '%s-%s' % (prop, f))
                    shutil.copy(p, out)
                    violations.append((out, m, t))
            for k in finds:
                if k['target'] == t['prop']:
                    rc, err = L.replay(argv, k['case'])
                    m = L.classify(rc, err)
                    if m and re.search(k['match'], m):
                        knowns.append(k)
                    elif m:
                        violations.append((k['case'], m, t))
            s = stats[label(t)] = dict(evaluations=nreg, nontrivial=0, distinct=0, discarded=0, counters={}, samples=[], regressions=nreg)
            if violations:
                break
            tgt = L.Target(label(t), argv, t['prop'])
            secs = budget * t.get('share', 1.0) / total_share
            env_old = L.ENV.get('PBT_CPU_LIMIT')
            if 'cpu' in t:
                L.ENV['PBT_CPU_LIMIT'] = str(t['cpu'])
            left, sub, rounds = secs, seed, 0
            while left > 0.5 and rounds < 6:
                ts = time.time()
                merged, failure = L.run_target(tgt, sub, left, work)
                for k in ('evaluations', 'nontrivial', 'distinct', 'discarded'):
                    s[k] += merged[k]
                for k, v in merged['counters'].items():
                    s['counters'][k] = s['counters'].get(k, 0) + v
                s['samples'] += merged['samples'][:4]
                if not failure:
                    break
                text, msg, idx = failure
                path = os.path.join(work, 'fail.case')
                open(path, 'w').write(text)
                m = confirm(argv, path)
                rounds += 1
                left -= time.time() - ts
                sub = sub * 1000003 + rounds
                if m is None:
                    # not reproducible from the saved case: no verdict from it
                    s['counters']['unconfirmed'] = s['counters'].get('unconfirmed', 0) + 1
                    sys.stderr.write('note: %s case %d failed in the run but not in its replay: %s\n' % (t['prop'], idx, msg))
                    continue
                k = next((k for k in finds if k['target'] == t['prop'] and re.search(k['match'], m)), None)
                case = L.Case.parse(text)
                small, smsg = L.shrink(argv, case, m, work, float(os.environ.get('PBT_SHRINK', '40' if tier == 'quick' else '120')))
                spath = os.path.join(work, 'small.case')
                open(spath, 'w').write(small.text())
                sm = confirm(argv, spath)
                if sm is None:
                    small, sm = case, m
                if k and re.search(k['match'], sm):
                    if k not in knowns:
                        knowns.append(k)
                    continue
                out = os.path.join(replays, '%s-%s-seed%d.case' % (prop, label(t), seed))
                with open(out, 'w') as f:
                    f.write('# %s\n# replay: python3 bin/replay.py %s %s\n' % (sm.replace('\n', ' ')[:1500], prop, out))
                    f.write(small.text())
                violations.append((out, sm, t))
                break
            if env_old is None:
                L.ENV.pop('PBT_CPU_LIMIT', None)
            if violations:
                break
        samples = []
        for name, s in stats.items():
            samples += ['[%s] %s' % (name, x) for x in s['samples'][:3]]
        ev = dict(property=prop, tier=tier, seed=seed, level='exploration',
                  coverage=dict(evaluations=sum(s['evaluations'] for s in stats.values()),
                                distinct_nontrivial=sum(s['distinct'] for s in stats.values()),
                                rule=cfg['rule'], samples=samples or ['(none)'],
                                per_target={k: {x: v for x, v in s.items() if x != 'samples'} for k, s in stats.items()},
                                build_s=round(build_s, 1)),
                  assumptions=cfg.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(violations))
        with open(os.path.join(L.VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        for k in knowns:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        for name, s in stats.items():
            print('%s: %d cases, %d distinct non-trivial, %d discarded %s' % (name, s['evaluations'], s['distinct'], s['discarded'], json.dumps(s['counters'], sort_keys=True)))
        if violations:
            out, msg, t = violations[0]
            print('%s: %s' % (label(t), msg[:3000]))
            print('VIOLATION property=%s replay=%s' % (prop, out))
            return 1
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    try:
        rc = main()
    except L.BuildFailure as e:
        # a harness that exercises only documented API does not compile
        prop = sys.argv[1]
        sys.stderr.write(str(e))
        if e.refused and PROPS[prop].get('calls'):
            out = os.path.join(L.VERIF, 'replays', prop + '-compile.case')
            with open(out, 'w') as f:
                f.write('prop compile\n# %s\n# %s\n' % e.refused)
            print('a call that the property promises does not compile: ' + e.refused[0])
            print('VIOLATION property=%s replay=%s' % (prop, out))
            sys.exit(1)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
    sys.exit(rc)
