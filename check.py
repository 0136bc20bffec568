#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] : decide property ID for /repo's working tree.

Static analysis only: the library is compiled to LLVM IR (or just parsed) and analysed,
nothing of it is executed.  See DESIGN.md."""
import argparse, concurrent.futures as cf, hashlib, itertools, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('COAN_REPO', '/repo')
INC = REPO + '/include'
BUILD = V + '/build'
CPUS = os.cpu_count() or 4
T0 = time.time()

# properties decided by the abstract interpreter over IR
ENGINE = {p: None for p in 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C20 C22 C24 C25 C26 C27 C28 C32'.split()}
# counters of the analysis that must not be zero for a property to count as analysed
NEED = {'C01': ['function_entries', 'operations'], 'C02': ['switches'], 'C03': ['operations'], 'C04': ['object_events', 'memory_accesses'], 'C05': ['object_events'],
        'C06': ['object_events'], 'C07': ['throws'], 'C08': ['throws'], 'C09': ['operations'], 'C10': ['switches', 'throws'], 'C11': ['stacks_allocated', 'stacks_freed'],
        'C12': ['object_events', 'function_entries'], 'C13': ['operations'], 'C14': ['operations'], 'C15': ['placement_obligations', 'preallocated_checked'], 'C16': ['memory_accesses'],
        'C17': ['operations'], 'C18': ['operations'], 'C20': ['placement_obligations', 'function_entries'], 'C21': ['operations'], 'C22': ['operations', 'memory_accesses'], 'C24': ['stacks_allocated', 'stacks_freed'], 'C25': ['switches', 'throws'], 'C32': ['operations', 'acquisitions_judged'], 'C26': ['contexts_created', 'switches'], 'C27': ['throws', 'operations'], 'C28': ['contexts_created', 'function_entries']}
CHEAP = ['core', 'throwing', 'peer', 'iter', 'ctors', 'catch']
HEAVY = ['moves', 'nested']
BASE = CHEAP + HEAVY
MAIN = [1, 2, 3, 4, 5]
COMBOS = ['core,throwing,catch', 'moves,throwing', 'moves,catch', 'peer,iter', 'core,iter', 'throwing,iter', 'peer,catch', 'core,ctors,catch', 'nested,throwing', 'nested,moves']
DEEP = ['core,throwing,moves,catch', 'moves,iter', 'peer,moves', 'peer,moves,throwing', 'nested,moves', 'nested,moves,throwing', 'nested,throwing,catch', 'nested,peer', 'nested,iter,throwing', 'nested,iter,moves', 'core,iter,catch', 'ctors,moves', 'ctors,nested', 'core,ctors,catch', 'core,moves,iter,ctors']
KINDS = list(range(1, 29))
KINDNAME = {1: 'class (all operations opaque, may throw)', 2: 'int', 3: 'class &', 4: 'void', 5: 'move-only class', 6: 'over-aligned large class', 7: 'aggregate', 8: 'int const &', 9: 'class *', 10: 'empty final class', 11: 'char', 12: 'int const', 13: 'class with hostile operators', 14: 'over-aligned aggregate', 15: 'class with trivial destructor', 16: 'class with greedy constructors', 17: 'class larger than a page', 18: 'class const &', 19: 'empty class &', 20: 'double', 21: 'bool', 22: 'enumeration', 23: 'polymorphic class', 24: 'class aligned to 1024', 25: 'reference to an array', 26: 'function pointer', 27: 'class const', 28: 'aggregate with a class member'}
CONFIGS = {'c++11': ('11', '-DNDEBUG'), 'c++14': ('14', '-DNDEBUG'), 'c++17': ('17', '-DNDEBUG'), 'c++20': ('20', '-DNDEBUG'), 'c++23': ('2b', '-DNDEBUG'),
           'c++11+assert': ('11', '-UNDEBUG'), 'c++14+assert': ('14', '-UNDEBUG'), 'c++17+assert': ('17', '-UNDEBUG'), 'c++20+assert': ('20', '-UNDEBUG'),
           # what clang sees; all others are told they are compiled by GCC 13
           'c++11 clang+assert': ('11', '-UNDEBUG'), 'c++17 clang': ('17', '-DNDEBUG'),
           'c++14+no rtti, unoptimised': ('14', '-DNDEBUG', '-fno-rtti', '-U__OPTIMIZE__'),
           # code paths the library keeps for other compilers
           'c++11+no std::align': ('11', '-DNDEBUG', '-DBOOST_NO_CXX11_STD_ALIGN'), 'c++17+no generic lambdas': ('17', '-DNDEBUG', '-DBOOST_NO_CXX14_GENERIC_LAMBDAS')}
# the standard library is parsed as clang parses it, then the library as GCC would
AS_GCC = '''#include <bits/stdc++.h>
#include <cxxabi.h>
#undef __clang__
#undef __clang_major__
#undef __clang_minor__
#undef __clang_patchlevel__
#undef __clang_version__
#undef __GNUC__
#undef __GNUC_MINOR__
#undef __GNUC_PATCHLEVEL__
#define __GNUC__ 13
#define __GNUC_MINOR__ 3
#define __GNUC_PATCHLEVEL__ 0
'''


class Broken(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def pool(jobs, fn, workers=CPUS):
    with cf.ThreadPoolExecutor(workers) as ex:
        return list(ex.map(fn, jobs))


# ---------------------------------------------------------------- engine ------------------
def engine():
    h = hashlib.sha256()
    for f in sorted(os.listdir(V + '/engine')):
        h.update(f.encode()); h.update(open(V + '/engine/' + f, 'rb').read())
    out = '%s/coan-%s' % (BUILD, h.hexdigest()[:16])
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = '%s.%d' % (out, os.getpid())
        r = run(['bash', V + '/engine/build.sh', tmp])
        if r.returncode:
            raise Broken('the analyser does not build: ' + r.stderr[-2000:])
        os.rename(tmp, out)
    return out


def harness(work, configs, kinds, need=None):
    """IR of the analysis root per configuration, payload kind and direction"""
    flags = lambda c: ['-std=c++' + CONFIGS[c][0], '-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', *CONFIGS[c][1:], '-I' + INC, '-w']

    def pre(c):
        src = '%s/pre_%s.hpp' % (work, re.sub(r'\W', '_', c))
        # code for GCC that clang does not take is left to the compiler that checks it (C19): here as clang then
        for prelude in ('',) if 'clang' in c else (AS_GCC, ''):
            with open(src, 'w') as f:
                f.write(prelude + ''.join('#include <%s>\n' % x for x in ('cstddef', 'initializer_list', 'memory', 'new', 'type_traits', 'typeinfo', 'utility', 'cxxabi.h', 'boost/coroutine2/all.hpp')))
            r = run(['clang++'] + flags(c) + ['-x', 'c++-header', src, '-o', src + '.pch'])
            if r.returncode == 0:
                break
        if r.returncode:
            raise Broken('%s: the library does not compile: %s' % (c, r.stderr[:1500]))
        return src + '.pch'
    pch = dict(zip(configs, pool(configs, pre)))

    def one(j):
        c, k, m = j
        o = '%s/h_%s_%d_%d.bc' % (work, re.sub(r'\W', '_', c), k, m)
        r = run(['clang++'] + flags(c) + ['-include-pch', pch[c], '-DKIND=%d' % k, '-DMAINPULL=%d' % m, '-emit-llvm', '-c', V + '/harness/harness.cpp', '-o', o + '.0'])
        if r.returncode == 0:
            r = run(['opt-18', '-passes=mem2reg', o + '.0', '-o', o])
        if r.returncode:
            return j, None, r.stderr[:1500]
        os.unlink(o + '.0')
        return j, o, ''
    return pool([(c, k, m) for c in configs for k in kinds for m in (0, 1) if need is None or (c, k) in need], one)


def explore(jobs, coan, limit_states, limit_sec, deadline):
    def one(j):
        (c, k, m), bc, sc = j
        sec = max(1.0, min(limit_sec, deadline - time.time()))
        r = run([coan, bc, sc, str(k), str(m), INC, str(limit_states), '%g' % sec])
        try:
            d = json.loads(r.stdout)
        except ValueError:
            d = {'error': 'analyser ended with %d: %s' % (r.returncode, (r.stderr or r.stdout)[-300:]), 'violations': [], 'states': 0, 'transitions': 0, 'imprecise': [], 'unknown_calls': [], 'incomplete': None, 'observations': [], 'functions': []}
        d['config'], d['kind'], d['mainpull'], d['scenario'] = c, k, m, sc
        return d
    return pool(jobs, one)


# ---------------------------------------------------------------- results -----------------
class Result:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.viol, self.cov, self.notes, self.samples = [], {}, [], []

    def add(self, rule, site, message, **kw):
        self.viol.append(dict(rule=rule, site=site, message=message, **kw))


def rel(s):
    return s.replace(INC + '/', 'include/').replace(REPO + '/', '')


# What goes wrong only where payload operations fail, coroutines are moved, the counterpart is moved or
# coroutines are nested, and nowhere else, breaks what is promised for exactly that.
ONLY = {'throwing': 'C08', 'moves': 'C13', 'peer': 'C14', 'nested': 'C26'}


def attribute(rs):
    line = lambda v: (v['rule'], v['site'].split(' ')[0])
    for tag, prop in ONLY.items():
        without = {line(v) for d in rs if tag not in d['scenario'].split(',') for v in d['violations']}
        for d in rs:
            if tag in d['scenario'].split(','):
                for v in d['violations']:
                    if line(v) not in without and prop not in v['properties']:
                        v['properties'].append(prop)


def engine_check(pid, tier, res, work):
    if tier == 'quick':
        configs = ['c++11', 'c++14+no rtti, unoptimised', 'c++17', 'c++20+assert', 'c++11 clang+assert', 'c++17 clang', 'c++11+no std::align']
        jobspec = [(c, KINDS, CHEAP) for c in ('c++11', 'c++17')] + [(c, MAIN, CHEAP) for c in ('c++14+no rtti, unoptimised', 'c++20+assert', 'c++17 clang')] + [('c++11 clang+assert', [1, 3, 4], CHEAP)]
        jobspec += [('c++17', [1, 2, 3, 4, 5, 6, 15], HEAVY), ('c++11', [1, 3, 4], HEAVY), ('c++14+no rtti, unoptimised', [1, 3], HEAVY), ('c++17 clang', [1, 3], HEAVY), ('c++20+assert', [1, 3], HEAVY)]
        jobspec += [('c++17', [1, 3, 4], COMBOS), ('c++11', [1, 3], COMBOS), ('c++17', [1], ['nested,peer']), ('c++11', [4], ['nested,peer'])]
        jobspec += [('c++11+no std::align', [1, 2, 3, 4, 6, 14, 17], ['core', 'throwing'])]
        lim = (60000, 60)
        deadline = T0 + 420
    else:
        configs = list(CONFIGS)
        jobspec = [(c, KINDS, BASE + COMBOS) for c in configs]
        jobspec += [(c, [1, 3, 4, 2, 5, 6, 7, 15], DEEP) for c in ('c++17', 'c++11+assert')]
        lim = (400000, 240)
        deadline = T0 + 2400
    if pid == 'C21':
        configs = list(CONFIGS)
        jobspec = [(c, KINDS, BASE + COMBOS) for c in configs]
        if tier == 'quick':
            configs = ['c++11', 'c++11+assert', 'c++14+no rtti, unoptimised', 'c++17', 'c++17 clang', 'c++20+assert', 'c++23']
            jobspec = [(c, KINDS if c in ('c++11', 'c++17') else MAIN + [6, 15], CHEAP) for c in configs] + [(c, [1, 3, 4], HEAVY + ['moves,throwing', 'nested,throwing', 'core,throwing,catch']) for c in configs]
    with cf.ThreadPoolExecutor(1) as ex:
        fut = ex.submit(engine)
        need = {(c, k) for c, ks, _ in jobspec for k in ks}
        hs = harness(work, configs, KINDS, need)
        coan = fut.result()
    bad = [(j, e) for j, o, e in hs if o is None]
    bcs = {j: o for j, o, e in hs if o is not None}
    if len(bad) == len(hs):
        raise Broken('no analysis root compiles: ' + bad[0][1])
    for j, e in bad[:5]:
        res.notes.append('analysis root not compiled for %s kind %d: %s' % (j[0], j[1], e.split('\n')[0]))
    # a payload form or configuration that no longer compiles at all
    dead = {}
    for j, e in bad:
        dead.setdefault((j[1], j[2]), []).append((j[0], e))
    for (k, m), ces in sorted(dead.items()):
        total = sum(1 for j, o, e in hs if j[1:] == (k, m))
        if pid == 'C05' and k == 5 or pid == 'C21' and len(ces) < total:
            site, msg = first_error(ces[0][1])
            if not any(v['site'] == site and v['rule'] == 'rejected' for v in res.viol):
                res.add('rejected', site or 'harness/harness.cpp', ('a move-only payload is not accepted: ' if pid == 'C05' else 'accepted in some configurations only: ') + msg, configuration='%s, payload %s' % (ces[0][0], KINDNAME[k]))
    jobs, seen = [], set()
    for c, ks, scs in jobspec:
        for k in ks:
            for m in (0, 1):
                for s in scs:
                    if (c, k, m) in bcs and (c, k, m, s) not in seen:
                        seen.add((c, k, m, s)); jobs.append(((c, k, m), bcs[(c, k, m)], s))
    # long jobs first
    jobs.sort(key=lambda j: -len(j[2].split(',')) - 2 * ('nested' in j[2]) - ('moves' in j[2]))
    rs = explore(jobs, coan, lim[0], lim[1], deadline)
    tot, fns, agg = {}, set(), {}
    attribute(rs)
    for d in rs:
        for k, v in d.items():
            if isinstance(v, int) and not isinstance(v, bool) and k not in ('kind', 'mainpull'):
                tot[k] = tot.get(k, 0) + v
        fns.update(d['functions'])
        for v in d['violations']:
            if pid not in v['properties']:
                continue
            key = (v['rule'], rel(v['site']), v['message'])
            job = '%s, payload %s, %s created by the resumer, scenario %s' % (d['config'], KINDNAME[d['kind']], 'pull' if d['mainpull'] else 'push', d['scenario'])
            a = agg.get(key)
            if a is None or len(v['path']) < len(a['path']):
                agg[key] = dict(path=v['path'], stack=[rel(x) for x in v['call_stack']], trace=[rel(x) for x in v.get('switches', [])], job=job, jobs=(a['jobs'] if a else 0) + 1)
            else:
                a['jobs'] += 1
    for key, a in agg.items():
        res.add(*key, history=a['path'], call_stack=a['stack'], switches=a['trace'], configuration=a['job'], occurrences=a['jobs'])
    errors = sorted({d['error'] for d in rs if d.get('error')})
    partial = sorted({'%s %s: %s' % (d['config'], d['scenario'], d['incomplete']) for d in rs if d.get('incomplete')})
    impr = sorted({x for d in rs for x in d['imprecise']}); unk = sorted({x for d in rs for x in d['unknown_calls']})
    lib = sorted(f for f in fns if 'boost::coroutines2::' in f)
    res.cov.update({'analyses': len(rs), 'configurations': configs, 'payload_kinds': len(KINDS), 'scenarios': sorted({j[2] for j in jobs}),
                    'abstract_states': tot.get('states', 0), 'client_operations_analysed': tot.get('transitions', 0), 'library_functions_analysed': len(lib), 'library_functions': [x[:160] for x in lib[:40]],
                    'counters': {k: tot[k] for k in sorted(tot) if k not in ('states', 'transitions', 'explored')},
                    'fixpoints_reached': sum(1 for d in rs if not d.get('incomplete') and not d.get('error')), 'fixpoints_cut_off': partial[:20], 'imprecise_points': impr[:20], 'unmodelled_calls': unk[:20]})
    if errors:
        res.notes.append('analyser errors: ' + '; '.join(errors[:5]))
    for d in rs[:400]:
        if d.get('observations') and len(res.samples) < 6:
            res.samples.append({'configuration': d['config'], 'payload': KINDNAME[d['kind']], 'scenario': d['scenario'], 'abstract transition': d['observations'][len(d['observations']) // 2]})
    if len(errors) and not any(not d.get('error') for d in rs):
        raise Broken('every analysis failed: ' + errors[0])
    for need in NEED[pid]:
        if not tot.get(need) and not res.viol:
            raise Broken('nothing was analysed: counter %s is zero' % need)
    if not lib:
        raise Broken('no function of the library was reached')
    if pid == 'C21':
        compare(res, rs)
    return rs


def compare(res, rs):
    """C21: the set of abstract observations is the same in every configuration"""
    by = {}
    for d in rs:
        if d.get('incomplete') or d.get('error') or d['imprecise'] or d['unknown_calls']:
            continue
        by.setdefault((d['kind'], d['mainpull'], d['scenario']), {})[d['config']] = d
    n = 0
    for (k, m, s), ds in sorted(by.items()):
        if len(ds) < 2:
            continue
        # majority set is the reference
        sets = {c: frozenset(d['observations']) for c, d in ds.items()}
        ref = max(set(sets.values()), key=lambda x: sum(1 for y in sets.values() if y == x))
        rules = {c: {(v['rule'], v['message']) for v in d['violations']} for c, d in ds.items()}
        for c, o in sets.items():
            n += 1
            if o != ref or any(rules[c] != rules[x] for x in ds):
                diff = sorted(o - ref)[:2] + sorted(ref - o)[:2]
                only = sorted(set.union(*[rules[x] ^ rules[c] for x in ds]))[:3]
                if diff or only:
                    what = ('%s: %s' % only[0]) if only else diff[0]
                    site = next((v['site'] for x in ds.values() for v in x['violations'] if only and (v['rule'], v['message']) == only[0]), 'observation ' + what)
                    res.add('configuration-dependent', rel(site), 'behaviour differs between configurations: ' + what, configuration='%s, payload %s, pull=%d, scenario %s' % (c, KINDNAME[k], m, s), differences=diff + ['%s: %s' % x for x in only])
    res.cov['observation_sets_compared'] = n
    res.cov['distinct_observations'] = len({o for d in rs for o in d['observations']})
    if not n and not any(d.get('incomplete') or d['imprecise'] or d['unknown_calls'] for d in rs):
        raise Broken('no two configurations could be compared')
    # one report per difference
    seen, out = set(), []
    for v in res.viol:
        key = (v['rule'], v['message'])
        if key not in seen:
            seen.add(key); out.append(v)
    res.viol = out


# ---------------------------------------------------------------- compile witnesses -------
COMPILERS = ['clang++', 'g++']
STDS = ['11', '14', '17', '20', '23']


def syntax(cc, std, src, extra=(), inp=None):
    s = {'23': '2b'}.get(std, std)
    return run([cc, '-std=c++' + s, '-fsyntax-only', '-w', '-I' + INC] + list(extra) + (['-x', 'c++', '-'] if inp is not None else [src]), input=inp)


def first_error(err):
    """message of the first error, with the construct of the library it is about if there is one"""
    lines = err.split('\n')
    i = next((i for i, l in enumerate(lines) if 'error:' in l), None)
    if i is None:
        return '', err[:200]
    blk = lines[max(0, i - 12):i + 14]
    site = next((l for l in [lines[i]] + blk if INC in l), lines[i])
    m = re.search(r'([^\s:]*%s[^\s:,]*):(\d+)' % re.escape(INC), site)
    msg = lines[i].split('error:', 1)[1].strip()
    msg = re.sub(r'^static assertion failed( due to requirement .*?)?: *', '', msg)
    return (rel(m.group(1)) + ':' + m.group(2)) if m else '', msg[:300]


def context_conflict(flags, err):
    """two headers of Boost.Context that exclude each other in its ucontext variant: not decided here"""
    return ('-DBOOST_USE_UCONTEXT' in flags) and 'redefinition of' in err and 'forced_unwind' in err


def witness_matrix(pid, tier):
    ccs = [('clang++', s) for s in STDS] + [('g++', s) for s in (STDS if tier == 'thorough' else ('11', '14', '17'))]
    return ccs


def witness(pid, tier, res, src, extras=((),), negative=()):
    """src must be accepted, with each of the negatives defined it must be rejected"""
    jobs = [(cc, s, x, None) for cc, s in witness_matrix(pid, tier) for x in extras]
    jobs += [(cc, s, (n,), True) for cc, s in witness_matrix(pid, tier) for n in negative]

    def one(j):
        cc, s, x, neg = j
        return j, syntax(cc, s, V + '/witness/' + src, x)
    n_ok = n_rej = 0
    seen = set()
    for (cc, s, x, neg), r in pool(jobs, one):
        if r.returncode not in (0, 1):
            raise Broken('%s ended with %d' % (cc, r.returncode))
        if neg:
            if r.returncode == 0:
                m = re.search(r'MISUSE == %s\n(.*)' % x[0].split('=')[1], open(V + '/witness/' + src).read())
                msg = 'misuse is accepted: ' + (m.group(1).strip() if m else x[0])
                if msg not in seen:
                    seen.add(msg); res.add('misuse-accepted', 'witness/%s %s' % (src, x[0]), msg, configuration='%s -std=c++%s' % (cc, s))
            else:
                n_rej += 1
        elif r.returncode and not context_conflict(x, r.stderr):
            for site, msg in [first_error(r.stderr)]:
                key = re.sub(r"'.*?'", '', msg)
                if key in seen:
                    continue
                seen.add(key); res.add('rejected', site or 'witness/' + src, msg, configuration='%s -std=c++%s %s' % (cc, s, ' '.join(x)), diagnostics=r.stderr.split('\n')[:25])
        elif r.returncode == 0:
            n_ok += 1
    text = open(V + '/witness/' + src).read()
    res.cov.setdefault('compilations_accepted', 0); res.cov['compilations_accepted'] += n_ok
    res.cov['compilations_rejected_as_required'] = res.cov.get('compilations_rejected_as_required', 0) + n_rej
    res.cov.setdefault('witness_files', []).append(src)
    res.cov['static_assertions'] = res.cov.get('static_assertions', 0) + len(re.findall(r'static_assert\(', text))
    res.cov['configurations'] = sorted({'%s -std=c++%s' % c for c in witness_matrix(pid, tier)})
    res.samples.append({'witness': src, 'first assertion': (re.search(r'static_assert.*', text) or [''])[0][:200]})


def c19(tier, res, work):
    witness('C19', tier, res, 'interface.cpp', ((), ('-DMISUSE=0', '-DNDEBUG', '-O1'), ('-DBOOST_USE_UCONTEXT',)), ['-DMISUSE=%d' % i for i in range(1, 9)])


def c20(tier, res, work):
    witness('C20', tier, res, 'requirements.cpp', ((), ('-DNDEBUG', '-O1'), ('-fno-rtti',), ('-DBOOST_USE_UCONTEXT',)) if tier == 'thorough' else ((), ('-DNDEBUG', '-O1'), ('-DBOOST_USE_UCONTEXT',)))
    text = open(V + '/witness/requirements.cpp').read()
    res.cov['payload_archetypes'] = sum(len(re.findall(r'\b%s\(' % m, text)) - 1 for m in ('VALUE', 'VALUE_BY_MOVE', 'REFERS'))


def c24_alias(tier, res, work):
    witness('C24', tier, res, 'aliases.cpp', ((), ('-DNDEBUG', '-O1'), ('-DBOOST_USE_SEGMENTED_STACKS',), ('-DBOOST_USE_SEGMENTED_STACKS', '-DNDEBUG', '-O1')))


def public_headers():
    d = INC + '/boost/coroutine2'
    hs = sorted(f for f in os.listdir(d) if f.endswith('.hpp'))
    if not hs:
        raise Broken('no public headers found')
    return ['boost/coroutine2/' + h for h in hs]


USE = '''
namespace %(ns)s { %(inl)s void use() {
    boost::coroutines2::coroutine< int >::pull_type p( []( boost::coroutines2::coroutine< int >::push_type & s) { s( 1); });
    for ( auto & i : p) { (void)i; }
    boost::coroutines2::coroutine< void >::push_type q( []( boost::coroutines2::coroutine< void >::pull_type & s) { s(); }); q();
    boost::coroutines2::coroutine< int & >::push_type r( []( boost::coroutines2::coroutine< int & >::pull_type & s) { s.get() = 1; });
} }
'''


def scan_modules(res, work, configs, kinds, coan):
    hs = harness(work, configs, kinds)
    bad = [e for j, o, e in hs if o is None]
    bcs = [(j, o) for j, o, e in hs if o is not None]
    if not bcs:
        raise Broken('no analysis root compiles: ' + bad[0])
    out = []

    def one(j):
        r = run([coan, j[1], 'scan', str(j[0][1]), str(j[0][2]), INC])
        try:
            return j[0], json.loads(r.stdout)
        except ValueError:
            raise Broken('module scan failed: ' + (r.stderr or r.stdout)[-300:])
    fns, agg = set(), {}
    tot = {}
    for (c, k, m), d in pool(bcs, one):
        fns.update(d['functions'])
        for x in ('library_functions', 'operands', 'global_operands', 'closure'):
            tot[x] = tot.get(x, 0) + d[x]
        for v in d['violations']:
            if res.pid in v['properties']:
                agg.setdefault((v['rule'], rel(v['site']), v['message']), dict(path=v['path'], configuration='%s, payload %s' % (c, KINDNAME[k])))
    for k, a in agg.items():
        res.add(*k, **a)
    if not tot.get('library_functions'):
        raise Broken('no library function found in any module')
    res.cov.update({'modules': len(bcs), 'function_definitions_scanned': tot['library_functions'], 'distinct_library_functions': len(fns), 'operands_scanned': tot['operands'], 'global_references': tot['global_operands'], 'functions_in_call_closure': tot['closure'], 'configurations': configs})
    res.samples.append({'functions': sorted(fns)[:5]})


def query(work, std, matcher, binding='root', src='#include <boost/coroutine2/all.hpp>\nint main() {}\n', extra=()):
    f = '%s/q_%s_%s' % (work, std, hashlib.md5((matcher + src + ' '.join(extra)).encode()).hexdigest()[:8])
    open(f + '.cpp', 'w').write(src)
    open(f + '.q', 'w').write('set output diag\nset bind-root true\nmatch %s\n' % matcher)
    r = run(['clang-query-18', '-f', f + '.q', f + '.cpp', '--', '-std=c++' + std, '-w', '-I' + INC] + list(extra))
    if 'error:' in r.stderr + r.stdout or 'matches.' not in r.stdout and 'match.' not in r.stdout:
        raise Broken('syntax tree query failed: ' + (r.stdout + r.stderr)[-400:])
    hits = re.findall(r'^(\S+?):(\d+):\d+: note: "root" binds here\n(.*)', r.stdout, re.M)
    return [(rel(a) + ':' + b, re.sub(r'^\s*\d+ \|', '', c).strip()) for a, b, c in hits]


LIB = 'isExpansionInFileMatching("/boost/coroutine2/")'


def c22(tier, res, work):
    coan = engine()
    configs = ['c++11', 'c++17', 'c++20+assert', 'c++17 clang'] if tier == 'quick' else list(CONFIGS)
    scan_modules(res, work, configs, [1, 2, 3, 4, 5] if tier == 'quick' else KINDS, coan)
    stds = ['11', '14', '17'] if tier == 'quick' else ['11', '14', '17', '20']
    n = 0
    jobs = [(s, x) for s in stds for x in ((), ('-DNDEBUG',))]
    # declarations, including those of templates nobody instantiates
    mut = 'varDecl(hasGlobalStorage(), unless(isConstexpr()), unless(hasType(isConstQualified())), unless(hasType(references(isConstQualified()))), %s)' % LIB
    tls = 'varDecl(hasThreadStorageDuration(), %s)' % LIB
    allv = 'varDecl(%s)' % LIB
    seen = set()
    for (s, x), hits, hits2, hits3 in pool(jobs, lambda j: (j, query(work, j[0], mut, extra=j[1]), query(work, j[0], tls, extra=j[1]), query(work, j[0], allv, extra=j[1]))):
        n += len(hits3)
        for rule, hs in (('static-storage', hits), ('thread-storage', hits2)):
            for site, text in hs:
                if site not in seen:
                    seen.add(site); res.add(rule, site, 'the library declares a variable with %s storage duration: %s' % ('thread' if rule == 'thread-storage' else 'static', text), configuration='c++' + s + ' ' + ' '.join(x))
    res.cov['variable_declarations_examined'] = n
    if not n:
        raise Broken('no variable declaration found')


def c23(tier, res, work):
    coan = engine()
    hs = public_headers()
    comps = witness_matrix('C23', tier)
    jobs = []
    for h in hs:
        for cc, s in comps:
            jobs.append((cc, s, 'alone', '#include <%s>\n' % h, h))
            jobs.append((cc, s, 'twice', '#include <%s>\n#include <%s>\nint main() {}\n' % (h, h), h))
    for a, b in itertools.permutations(hs, 2):
        for cc, s in (comps if tier == 'thorough' else [('clang++', '14')]):
            jobs.append((cc, s, 'order', '#include <%s>\n#include <%s>\n' % (a, b) + (USE % dict(ns='u', inl='') if 'all.hpp' in a + b or 'coroutine.hpp' in a + b else ''), a + ' then ' + b))
    for cc, s in comps:
        jobs.append((cc, s, 'reverse', ''.join('#include <%s>\n' % h for h in reversed(hs)) + USE % dict(ns='u', inl=''), 'all headers in reverse order'))
        jobs.append((cc, s, 'uses', '#include <boost/coroutine2/all.hpp>\n' + USE % dict(ns='u', inl=''), 'all.hpp alone'))
        jobs.append((cc, s, 'uses', '#include <boost/coroutine2/coroutine.hpp>\n' + USE % dict(ns='u', inl=''), 'coroutine.hpp alone'))
        jobs.append((cc, s, 'uses-ucontext', '#define BOOST_USE_UCONTEXT\n#include <boost/coroutine2/all.hpp>\n' + USE % dict(ns='u', inl=''), 'all.hpp with the ucontext implementation of Boost.Context'))
        jobs.append((cc, s, 'uses-assert', '#define BOOST_ENABLE_ASSERT_HANDLER\n#include <boost/coroutine2/all.hpp>\n' + USE % dict(ns='u', inl=''), 'all.hpp with an assertion handler'))
    seen = set(); n = 0
    for (cc, s, what, text, h), r in pool(jobs, lambda j: (j, syntax(j[0], j[1], None, inp=j[3]))):
        n += 1
        if r.returncode and not (what == 'uses-ucontext' and context_conflict(['-DBOOST_USE_UCONTEXT'], r.stderr)):
            site, msg = first_error(r.stderr)
            if (what, msg) not in seen:
                seen.add((what, msg)); res.add('header-' + what, site or h, '%s does not compile (%s): %s' % (h, what, msg), configuration='%s -std=c++%s' % (cc, s), diagnostics=r.stderr.split('\n')[:15])
    res.cov['header_compilations'] = n
    res.cov['headers'] = hs
    scan_modules(res, work, ['c++11', 'c++17', 'c++20+assert'] if tier == 'quick' else list(CONFIGS), [1, 3, 4] if tier == 'quick' else KINDS, coan)
    m2 = 'namespaceDecl(isAnonymous(), %s)' % LIB
    m3 = 'varDecl(hasGlobalStorage(), isDefinition(), unless(isConstexpr()), unless(hasType(isConstQualified())), unless(isStaticLocal()), unless(hasAncestor(classTemplateDecl())), %s)' % LIB
    for s in (['11', '17'] if tier == 'quick' else ['11', '14', '17', '20']):
        for rule, mm, txt in (('unnamed-namespace', m2, 'the headers contain an unnamed namespace: every translation unit gets its own definitions'), ('namespace-variable', m3, 'the headers define a namespace-scope variable')):
            for site, t in query(work, s, mm):
                if site not in seen:
                    seen.add(site); res.add(rule, site, txt + ': ' + t, configuration='c++' + s)
        res.cov['declarations_examined'] = res.cov.get('declarations_examined', 0) + len(query(work, s, 'decl(%s)' % LIB))


# ---------------------------------------------------------------- main --------------------
EXPL = {
    'engine': 'Abstract interpretation of the LLVM IR of every public operation, with a most general client: from every reachable abstract state every operation the preconditions allow is applied, by the resumer and by the coroutine-function, until no new abstract state appears. Loops are not bounded and values are abstract; a rule is checked at every instruction, context switch, object event and client observation.',
    'C19': 'Compile-time witnesses: assertions about the types and overload sets, accepted by the compilers only if the interface is as documented, and misuse programs that have to be rejected, each next to an accepted twin.',
    'C20': 'The abstract interpretation of all public operations for every shape of payload and callable (alignment of what is placed), and compile-time witnesses: minimal archetypes for payloads and callables instantiate every public operation; anything the library needs beyond the documented requirements is a compile error.',
    'C22': 'The abstract interpretation of all public operations (writes to globals, writes by operations that only observe), and rules over the syntax tree (declarations with static or thread storage) and over the IR (operands naming mutable globals, call closure reaching thread identity).',
    'C23': 'Every public header compiled alone, twice and in every pairwise order, and rules over the linkage of every definition that originates from the headers.',
}


def known(pid):
    out = []
    p = V + '/known_findings.json'
    if os.path.exists(p):
        for e in json.load(open(p)):
            if e.get('property') == pid and e.get('status') == 'open':
                out.append(e)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    pid, tier = a.pid, 'thorough' if a.tier == 'thorough' else 'quick'
    if pid == 'engine':
        print(engine()); return 0
    work = tempfile.mkdtemp(prefix='coan.')
    res = Result(pid, tier)
    try:
        if pid in ENGINE or pid == 'C21':
            engine_check(pid, tier, res, work)
            if pid == 'C24':
                c24_alias(tier, res, work)
            if pid == 'C20':
                c20(tier, res, work)
            if pid == 'C22':
                c22(tier, res, work)
            if pid in ('C17', 'C18'):
                witness(pid, tier, res, 'ranges.cpp', tuple(('-DPULLS' if pid == 'C17' else '-DPUSHES',) + x for x in ((), ('-DNDEBUG', '-O1'))))
        elif pid == 'C19': c19(tier, res, work)
        elif pid == 'C23': c23(tier, res, work)
        else:
            raise Broken('no check for ' + pid)
    except Broken as e:
        print('ERROR: analysis of %s could not be carried out: %s' % (pid, e)); return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    ks = known(pid); new = []
    for v in res.viol:
        k = next((k for k in ks if k['rule'] == v['rule'] and k['site'] in v['site'] and k['message'] in v['message']), None)
        if k:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        else:
            new.append(v)
    os.makedirs(V + '/evidence', exist_ok=True)
    cov = {'explanation': EXPL.get(pid, EXPL['engine']) + (' Published names are decided by compile-time witnesses.' if pid == 'C24' else ' What the iterators tell generic algorithms about themselves is decided by compile-time witnesses.' if pid in ('C17', 'C18') else ' The sets of abstract observations of all configurations are compared.' if pid == 'C21' else ''),
           'violations': len(new), 'samples': res.samples or [{'none': True}]}
    cov.update(res.cov)
    if res.notes:
        cov['notes'] = res.notes
    replay = 'evidence/%s.violation.json' % pid
    rp = V + '/' + replay
    if new:
        json.dump({'property': pid, 'repo': REPO, 'violations': new}, open(rp, 'w'), indent=1)
        cov['reported'] = [{k: v[k] for k in ('rule', 'site', 'message')} for v in new[:20]]
    elif os.path.exists(rp):
        os.unlink(rp)
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov, 'wall_s': round(time.time() - T0, 3)}
    json.dump(ev, open(V + '/evidence/%s.json' % pid, 'w'), indent=1)
    for n in res.notes:
        print('note: ' + n[:300])
    for v in new[:8]:
        print('%s: %s: %s' % (v['site'][:240], v['rule'], v['message'][:300]))
        if v.get('history'): print('    history: ' + ' ; '.join(v['history'])[:500])
        if v.get('configuration'): print('    in: ' + v['configuration'])
    if new:
        print('VIOLATION property=%s replay=%s' % (pid, replay)); return 1
    print('%s holds: %s' % (pid, ', '.join('%s=%s' % (k, v) for k, v in res.cov.items() if isinstance(v, int))))
    return 0


if __name__ == '__main__':
    sys.exit(main())
