#!/usr/bin/env python3
"""Check of one property: run.py <property> [quick|thorough]

1. builds the harness against /repo's working tree,
2. lets it record executions of the real code (<kind>.ndjson),
3. has TLC decide which of them are behaviours of the specification,
4. writes evidence/<property>.json.

Exit status 0: held; 1: VIOLATION line printed; 2: the check didn't work.
"""
import collections, concurrent.futures, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
MODULES = {'dec': 'DecoderTrace', 'strm': 'StreamTrace', 'fdec': 'FrameDecTrace',
           'enc': 'EncoderTrace', 'new': 'QuantTrace'}
BATCH_BYTES = 12_000_000
PARALLEL = 4


class ToolError(Exception):
    pass


def module_of(kind):
    return MODULES[kind.rstrip('0123456789')]


def tlc(module, trace, work, cfg=None, timeout=3000, heap='5g', workers=3, extra=()):
    """Runs TLC, returns its output and whether it completed without an error."""
    meta = os.path.join(work, 'meta-%s' % os.path.basename(trace or cfg or module))
    log = meta + '.log'
    env = dict(os.environ, TRACE=trace or '')
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4', '-Xmx' + heap, '-Xss64m', '-cp', CP, 'tlc2.TLC',
           '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-deadlock',
           '-config', (cfg or module) + '.cfg', *extra, module + '.tla']
    with open(log, 'w') as f:
        try:
            rc = subprocess.run(cmd, cwd=SPEC, env=env, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            raise ToolError('TLC timed out on ' + str(trace or module))
    shutil.rmtree(meta, ignore_errors=True)
    out = open(log, errors='replace').read()
    return out, rc == 0 and 'Model checking completed' in out


def counts(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def check_batch(args):
    """Returns (accepted ids, {rejected id: reasons}, transitions, states)"""
    kind, name, items, work = args
    module = module_of(kind)
    todo = list(items)
    acc, rej, gen, dist = set(), collections.defaultdict(list), 0, 0
    for attempt in range(25):
        if not todo:
            break
        path = os.path.join(work, name + '.ndjson')
        with open(path, 'w') as f:
            f.writelines(l for _, l in todo)
        out, done = tlc(module, path, work)
        for i in re.findall(r'<<"ACC", (\d+)>>', out):
            acc.add(int(i))
        for m in re.finditer(r'<<\s*"REJ",\s*(\d+),[^\n]*', out):
            if len(rej[int(m.group(1))]) < 5:
                rej[int(m.group(1))].append(m.group(0)[:400])
        g, d = counts(out)
        gen += g
        dist += d
        os.unlink(path)
        if done:
            break
        # an invariant or an expression of the specification failed on one trace
        at = re.findall(r'^/\\ cid = (\d+)', out, re.M)
        err = re.search(r'Error: (.*(?:\n.*){0,3})', out)
        if not at:
            raise ToolError('TLC failed on %s: %s' % (name, err.group(1)[:1000] if err else out[-1000:]))
        bad = todo[int(at[-1]) - 1][0]
        rej[bad].append('TLC: ' + (err.group(1)[:600] if err else '?'))
        acc.discard(bad)
        done_ids = acc | {bad}
        todo = [t for t in todo if t[0] not in done_ids]
        acc_ok = set(acc)
        acc = acc_ok
    else:
        for i, _ in todo:
            if i not in acc:
                rej[i].append('not decided')
    for i, _ in items:
        if i not in acc and i not in rej:
            rej[i].append('no behaviour of the specification explains this execution')
    for i in acc:
        rej.pop(i, None)
    return acc, rej, gen, dist


def corrupt(kind, t):
    """Changes a recorded execution to one which must not be accepted, if it knows how."""
    base = kind.rstrip('0123456789')
    for e in t['ev']:
        if base == 'dec' and e.get('c') == 'new' and e['r'] == 'ok':
            e['w'] += 1
            return True
        if base == 'strm' and e['e'] in ('hend', 'meta', 'gpal'):
            e['o'] += 5
            return True
        if base == 'fdec' and e.get('r') == 'ok':
            e['bs'] += 1
            return True
        if base == 'enc' and e.get('r') == 'ok' and len(e.get('out', ())) > 7:
            e['out'][6] ^= 1
            return True
        if base == 'new' and e.get('r') == 'ok' and e.get('w', 0) >= 0 and 'w' in e:
            e['w'] += 1
            return True
    return False


CANARY = 1_000_000_000


def load(kind, path):
    items, canaries = [], 0
    with open(path) as f:
        for l in f:
            i = int(l[6:l.index(',')])
            items.append((i, l))
    # corrupted copies of some executions
    step = max(1, len(items) // 6)
    for n in range(0, len(items), step):
        t = json.loads(items[n][1])
        if corrupt(kind, t):
            t2 = {'id': CANARY + t['id']}
            t2.update({k: v for k, v in t.items() if k != 'id'})
            items.append((t2['id'], json.dumps(t2, separators=(',', ':')) + '\n'))
            canaries += 1
    return items, canaries


def batches(items):
    total = sum(len(l) for _, l in items)
    n = max(1, min(len(items), max(total // BATCH_BYTES + 1, min(PARALLEL, total // 400_000))))
    out = [[] for _ in range(n)]
    # dealt out in turn, so that batches are similar
    for k, it in enumerate(items):
        out[k % n].append(it)
    return out


def build():
    r = subprocess.run(['cargo', 'build', '--release', '--offline', '--quiet'], cwd=os.path.join(ROOT, 'harness'),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise ToolError('harness does not build:\n' + r.stdout[-3000:])
    return os.path.join(ROOT, 'harness', 'target', 'release', 'gif-harness')


def shorten(v):
    s = json.dumps(v, separators=(',', ':'))
    return s if len(s) <= 1500 else s[:1500] + '...'


def main():
    prop = sys.argv[1]
    tier = (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER')) or 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    work = os.path.join(ROOT, 'work', prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    info = json.load(open(os.path.join(ROOT, 'checks.json')))[prop]
    exe = build()

    violations, samples = [], []
    states = transitions = validated = execs = canaries = 0
    per_kind, models = {}, []

    def violation(v):
        path = os.path.join(work, 'violation-%d.json' % (len(violations) + 1))
        if len(violations) < 20:
            with open(path, 'w') as f:
                json.dump(v, f, indent=1)
        violations.append(path)

    # Models: exhaustive exploration of the specification.  The behaviours they print are replayed below.
    todo = [m for m in info.get('models', []) if m.get('tier', tier) == tier]

    def explore(m):
        out, done = tlc(m['module'], '', work, cfg=m['cfg'], heap='10g', workers=8 if tier == 'thorough' else 4)
        if not done:
            raise ToolError('model %s: %s' % (m['cfg'], re.sub(r'"SCRIPT [^\n]*\n', '', out)[-2500:]))
        return out

    def harness(args):
        try:
            r = subprocess.run([exe, prop, tier, str(seed), work] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=600 if tier == 'quick' else 7200)
            rc, out = r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            rc, out = 3, 'time limit exceeded'
        if rc in (3, 4):
            hang = os.path.join(work, 'hang.json')
            violation({'property': prop, 'what': 'an execution did not end' if rc == 3 else 'the process was aborted', 'output': out[-2000:],
                       'case': open(hang).read() if os.path.exists(hang) else None})
        elif rc:
            raise ToolError('harness: rc %d %s' % (rc, out[-2000:]))
        return rc == 0

    with concurrent.futures.ThreadPoolExecutor(2 if tier == 'quick' else 1) as ex:
        explored = [ex.submit(explore, m) for m in todo]
        ran = [('stats.json', harness([]))]
        scripts = set()
        for m, x in zip(todo, explored):
            out = x.result()
            g, d = counts(out)
            states += d
            transitions += g
            found = sorted(set(re.findall(r'^"SCRIPT (.*)"$', out, re.M)))
            if not found and not m.get('no_behaviours'):
                raise ToolError('model %s has no behaviours' % m['cfg'])
            n = len(found)
            if n > m.get('most', n):
                # spread evenly; other ones with other seeds
                found = [found[(seed + i * n // m['most']) % n] for i in range(m['most'])]
            scripts.update(found)
            models.append({'model': m['cfg'], 'distinct_states': d, 'transitions': g, 'behaviours': n, 'behaviours_replayed': len(found)})
    if scripts:
        path = os.path.join(work, 'scripts.txt')
        with open(path, 'w') as f:
            f.write(''.join(s.replace('\\"', '"') + '\n' for s in sorted(scripts)))
        ran.append(('stats-model.json', harness([path] + (['streams'] if info.get('streams') else []))))

    stats = {}
    for name, ok in ran:
        if ok:
            stats.update(json.load(open(os.path.join(work, name))))
    if stats:
        jobs, by_id = [], {}
        for kind in sorted(k for k in stats if k != 'ok'):
            items, c = load(kind, os.path.join(work, kind + '.ndjson'))
            canaries += c
            by_id[kind] = dict(items)
            per_kind[kind] = {'executions': stats[kind]['execs'], 'traces': stats[kind]['traces'], 'accepted': 0}
            execs += stats[kind]['execs']
            for n, b in enumerate(batches(items)):
                jobs.append((kind, '%s-%d' % (kind, n), b, work))
        jobs.sort(key=lambda j: -sum(len(l) for _, l in j[2]))
        with concurrent.futures.ThreadPoolExecutor(PARALLEL) as ex:
            results = list(zip(jobs, ex.map(check_batch, jobs)))
        for (kind, name, b, _), (acc, rej, g, d) in results:
            states += d
            transitions += g
            bad = [i for i in acc if i >= CANARY]
            # a corrupted copy of an execution which is not explained itself proves nothing
            if bad and all(i - CANARY not in rej for i in bad):
                raise ToolError('%s: corrupted executions were accepted: %s' % (kind, bad[:5]))
            per_kind[kind]['accepted'] += sum(1 for i in acc if i < CANARY)
            validated += sum(1 for i in acc if i < CANARY)
            for i in sorted(rej):
                if i < CANARY:
                    violation({'property': prop, 'kind': kind, 'specification': module_of(kind), 'reasons': rej[i],
                               'execution': json.loads(by_id[kind][i])})
        for kind, m in by_id.items():
            for i in sorted(m)[:1]:
                samples.append({'kind': kind, 'execution': shorten(json.loads(m[i]))})
        if validated == 0 and not violations:
            raise ToolError('nothing was validated')

    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': states, 'transitions': transitions, 'traces_validated_against_impl': validated,
            'evaluations': execs, 'kinds': per_kind, 'models': models,
            'corrupted_executions_rejected': canaries, 'samples': samples,
            'explanation': info['covers'],
        },
        'assumptions': info.get('assumptions', []),
        'wall_s': round(time.time() - t0, 1), 'violations': len(violations),
    }
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    for name in os.listdir(work):
        if name.endswith('.ndjson') or name.endswith('.log'):
            if not violations:
                os.unlink(os.path.join(work, name))
    if violations:
        print('%d executions are not behaviours of the specification' % len(violations))
        print('VIOLATION property=%s replay=%s' % (prop, violations[0]))
        return 1
    known = os.path.join(ROOT, 'KNOWN_FINDINGS.md')
    if os.path.exists(known):
        for l in open(known):
            m = re.match(r'open: property=(\S+) (.*)', l)
            if m and m.group(1) == prop:
                print('KNOWN-FINDING: property=%s %s' % (prop, m.group(2)))
    print('%s: %d executions, %d traces accepted, %d states, %.0f s' % (prop, execs, validated, states, time.time() - t0))
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except ToolError as e:
        print('check failed: ' + str(e))
        sys.exit(2)
