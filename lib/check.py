#!/usr/bin/python3
"""Decides one property against /repo's current working tree.

usage: check.py <property> [--thorough] [--harness NAME] [--build-only]

Compiles the harnesses of the property and the parts of /repo that they need,
runs the exploration, writes evidence/<property>.json, and exits with
  0  the property held on everything explored,
  1  after a line VIOLATION property=<id> replay=<path>,
  2  anything else (the check itself is broken, or /repo doesn't compile).
"""
import concurrent.futures
import hashlib
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import properties  # noqa: E402

COMMON = [
    '-std=c++23', '-g1', '-m64', '-msse4.1',
    '-include', 'cstdint', '-include', 'type_traits', '-include', 'concepts',
    '-include', f'{VERIF}/shim/prelude.h',
    '-fbracket-depth=257', '-fdeclspec', '-fexceptions', '-ffp-contract=off',
    '-fno-omit-frame-pointer', '-fno-char8_t', '-w', '-DNDEBUG',
    '-ferror-limit=20',
    '-DPRINCIPIA_REQUIRES_AVX=0', '-DPRINCIPIA_REQUIRES_FMA=0',
    '-DPROJECT_DIR=std::filesystem::path("ksp_plugin_adapter/")',
    f'-DSOLUTION_DIR=std::filesystem::path("{REPO}/")',
    '-DTEMP_DIR=std::filesystem::path("/tmp")',
    '-DPLATFORM_WITH_CPU_FEATURES="x64"',
]
FMA = ['-UPRINCIPIA_REQUIRES_AVX', '-UPRINCIPIA_REQUIRES_FMA',
       '-DPRINCIPIA_REQUIRES_AVX=1', '-DPRINCIPIA_REQUIRES_FMA=1', '-mavx',
       '-mfma']
MATH = ['numerics/sin_cos.cpp', 'numerics/cbrt.cpp',
        'numerics/elliptic_functions.cpp', 'numerics/elliptic_integrals.cpp',
        'numerics/apodization.cpp', 'geometry/instant.cpp', 'base/cpuid.cpp']
CXX = 'clang++-20'
ABSL = ['status', 'statusor', 'time', 'strings', 'time_zone', 'int128',
        'throw_delegate', 'raw_logging_internal', 'base', 'cord',
        'cord_internal', 'strings_internal', 'str_format_internal']
ABSL_FULL = ABSL + ['synchronization', 'hash', 'raw_hash_set', 'city',
                    'low_level_hash', 'spinlock_wait', 'malloc_internal',
                    'stacktrace', 'symbolize', 'debugging_internal',
                    'demangle_internal', 'graphcycles_internal',
                    'bad_optional_access', 'bad_variant_access',
                    'strerror', 'str_format_internal',
                    'cordz_info', 'cordz_handle', 'cordz_functions',
                    'exponential_biased', 'hashtablez_sampler']


def log(*args):
    print(*args, file=sys.stderr, flush=True)


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()


def deps_hash(depfile):
    try:
        with open(depfile, encoding='utf-8') as f:
            text = f.read()
    except OSError:
        return None
    text = text.replace('\\\n', ' ')
    files = text.split(':', 1)[1].split()
    h = hashlib.sha256()
    for name in files:
        if name.startswith('/usr/'):
            continue
        try:
            with open(name, 'rb') as f:
                h.update(name.encode() + b'\0' + f.read() + b'\0')
        except OSError:
            return None
    return h.hexdigest()


def compile_one(src, flags, tag):
    """Compiles src; the result is reused iff nothing it depends on changed."""
    command = [CXX] + flags + ['-c', src]
    key = sha('\0'.join(command))[:24]
    base = os.path.join(BUILD, 'obj',
                        f'{os.path.basename(src)}.{tag}.{key}')
    obj, dep, stamp = base + '.o', base + '.d', base + '.stamp'
    if os.path.exists(obj) and os.path.exists(stamp):
        with open(stamp, encoding='utf-8') as f:
            if f.read() == deps_hash(dep):
                return obj
    r = subprocess.run(
        ['timeout', '800'] + command + ['-MD', '-MF', dep, '-o', obj + '.tmp'],
        capture_output=True, text=True, errors='replace', check=False)
    if r.returncode != 0:
        raise BuildError(f'{src} does not compile:\n' + r.stderr[:6000])
    os.replace(obj + '.tmp', obj)
    with open(stamp, 'w', encoding='utf-8') as f:
        f.write(deps_hash(dep) or '')
    return obj


def write_if_changed(path, text):
    try:
        with open(path, encoding='utf-8') as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, 'w', encoding='utf-8') as f:
        f.write(text)


def generate():
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)
    subprocess.run([sys.executable, os.path.join(HERE, 'gen_shim.py'),
                    os.path.join(BUILD, 'shim2'),
                    os.path.join(BUILD, 'shimmc')], check=True)
    gen = os.path.join(BUILD, 'gen')
    tmp = os.path.join(BUILD, f'gen.{os.getpid()}')
    os.makedirs(tmp)
    protos = sorted(os.path.relpath(os.path.join(d, f), REPO)
                    for d in [os.path.join(REPO, 'serialization')]
                    for f in os.listdir(d) if f.endswith('.proto'))
    r = subprocess.run(['protoc', '-I', '.', *protos, '--cpp_out', tmp],
                       cwd=REPO, capture_output=True, text=True, check=False)
    if r.returncode != 0:
        raise BuildError('protoc: ' + r.stderr[:3000])
    os.makedirs(os.path.join(gen, 'serialization'), exist_ok=True)
    for f in os.listdir(os.path.join(tmp, 'serialization')):
        with open(os.path.join(tmp, 'serialization', f),
                  encoding='utf-8') as h:
            write_if_changed(os.path.join(gen, 'serialization', f), h.read())
        os.unlink(os.path.join(tmp, 'serialization', f))
    os.rmdir(os.path.join(tmp, 'serialization'))
    os.rmdir(tmp)


def proto_closure(names):
    """The transitive closure of the imports of the protos."""
    seen = []
    todo = list(names)
    while todo:
        n = todo.pop(0)
        if n in seen:
            continue
        seen.append(n)
        with open(os.path.join(REPO, 'serialization', n + '.proto'),
                  encoding='utf-8') as f:
            todo += re.findall(r'import "serialization/(\w+)\.proto"',
                               f.read())
    return seen


def build(prop, spec, index):
    """Returns the path of the executable."""
    mc = spec['kind'] == 'mc'
    asan = spec.get('asan', False)
    includes = [f'-I{BUILD}/shim2', f'-I{VERIF}/shim', f'-I{VERIF}',
                f'-I{REPO}', f'-I{BUILD}/gen']
    opt = spec.get('opt', '-O1')
    if mc:
        flags = COMMON + [opt, '-fsanitize=thread', '-mllvm',
                          '-tsan-instrument-func-entry-exit=0',
                          f'-I{VERIF}/mc/include', f'-I{BUILD}/shimmc',
                          ] + includes
    else:
        flags = COMMON + [opt] + includes
        if asan:
            flags += ['-fsanitize=address']
    flags += spec.get('flags', [])
    if spec.get('fma'):
        # The other official configuration, x64_AVX_FMA.
        flags += FMA
    extra = spec.get('extra', [])  # Absolute or /verif-relative sources.
    tasks = []
    for h in spec['harness']:
        tasks.append((os.path.join(VERIF, 'harness', h), flags, prop))
    for e in extra:
        tasks.append((os.path.join(VERIF, e), flags, 'x'))
    for r in spec.get('repo', []):
        tasks.append((os.path.join(REPO, r), flags, 'r'))
    for p in proto_closure(spec.get('protos', [])):
        # The generated code isn't interesting to explore: not instrumented.
        pflags = (COMMON + ['-O1'] + includes)
        tasks.append((os.path.join(BUILD, 'gen', 'serialization',
                                   p + '.pb.cc'), pflags, 'p'))
    if mc:
        tasks.append((os.path.join(VERIF, 'mc', 'mc.cc'),
                      ['-std=c++20', '-O2', '-g1', '-fno-access-control', '-w',
                       f'-I{VERIF}', f'-I{VERIF}/mc/include'], 'mc'))
    else:
        tasks.append((os.path.join(VERIF, 'seq', 'seq.cc'),
                      flags if asan else COMMON + ['-O2'] + includes, 'seq'))
        tasks.append((os.path.join(VERIF, 'shim', 'runtime.cpp'), flags, 's'))
    math = []
    if spec.get('math', False):
        # Purely sequential code: never instrumented.
        mflags = COMMON + ['-O2'] + includes + (FMA if spec.get('fma') else [])
        math = [(os.path.join(REPO, m), mflags, 'm') for m in MATH]
        math.append((os.path.join(VERIF, 'shim', 'core_math.cpp'), mflags,
                     'm'))
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count()) as pool:
        objs = list(pool.map(lambda t: compile_one(*t), tasks + math))
    if math:
        archive = os.path.join(BUILD, 'bin', f'{prop}.{index}.math.a')
        if os.path.exists(archive):
            os.unlink(archive)
        subprocess.run(['ar', 'rcs', archive, *objs[-len(math):]], check=True)
        objs = objs[:-len(math)] + [archive]
    exe = os.path.join(BUILD, 'bin', f'{prop}.{index}')
    libs = spec.get('libs', [])
    link = [CXX, '-o', exe + '.tmp', *objs]
    if mc:
        link += ['-no-pie', *[f'-labsl_{a}' for a in ABSL]]
    else:
        if asan:
            link += ['-fsanitize=address']
        link += ['-Wl,--start-group', *[f'-labsl_{a}' for a in ABSL_FULL],
                 '-Wl,--end-group']
    if math:
        link += ['-lquadmath']
    if spec.get('protos'):
        link += ['-lprotobuf']
    link += [*libs, '-lpthread']
    r = subprocess.run(link, capture_output=True, text=True, check=False)
    if r.returncode != 0:
        raise BuildError('link: ' + r.stderr[:4000])
    os.replace(exe + '.tmp', exe)
    return exe


def known_findings(prop):
    known = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path, encoding='utf-8') as f:
            for line in f:
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
                if m and m.group(1) == prop:
                    known.append((m.group(2), m.group(3)))
    return known


def run(prop, exe, spec, thorough, only, time_s, index):
    out = os.path.join(BUILD, f'{prop}.{index}.json')
    replay = os.path.join(BUILD, f'{prop}.{index}.replay')
    if os.path.exists(out):
        os.unlink(out)
    command = [exe, '--out', out, '--replay-out', replay,
               '--jobs', str(min(os.cpu_count() or 8, 16)), '--time', str(time_s)]
    if thorough:
        command.append('--thorough')
    if only:
        command += ['--harness', only]
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = ('detect_leaks=0:exitcode=77:'
                           'allocator_may_return_null=1:'
                           'detect_stack_use_after_return=0')
    env['VERIF_KNOWN'] = ' '.join(k for k, _ in known_findings(prop))
    r = subprocess.run(command, env=env, check=False,
                       stdout=subprocess.PIPE, text=True, errors='replace')
    with open(out, encoding='utf-8', errors='replace') as f:
        data = json.load(f)
    return r.returncode, data['harnesses'], r.stdout


def evidence(prop, spec, thorough, harnesses, wall, violations):
    samples = []
    for h in harnesses:
        for s in h['samples'][:3]:
            samples.append(s if isinstance(s, dict)
                           else {'harness': h['name'], 'outcome': s})
    samples = samples[:40] or ['(none)']
    per = []
    for h in harnesses:
        keep = ['name', 'kind', 'executions', 'choice_points', 'wall_s']
        keep += (['transitions', 'bound', 'bound_completed', 'capped',
                  'truncated', 'leaks', 'outcomes', 'max_points', 'max_threads',
                  'shared_objects'] if h['kind'] == 'mc'
                 else ['steps', 'states', 'pruned', 'max_depth', 'complete'])
        per.append({k: h[k] for k in keep})
    mc = [h for h in harnesses if h['kind'] == 'mc']
    seq = [h for h in harnesses if h['kind'] == 'seq']
    exhaustive = (all(not h['capped'] for h in mc) and
                  all(h['complete'] for h in seq))
    if spec['level'] == 'model_checking':
        counting = []
        if mc:
            counting.append(
                'concurrent harnesses: states are the decision points reached '
                'in the schedule trees, transitions the visible operations '
                'executed, traces the complete schedules of the real code run '
                'under the controlled scheduler')
        if seq:
            counting.append(
                'sequential harnesses: states are the distinct states of the '
                'reference model visited, transitions the operations applied '
                'to both the model and the real code and compared, traces the '
                'complete histories replayed on the real code')
        coverage = {
            'states': sum(h['choice_points'] for h in mc) +
                      sum(h['states'] for h in seq),
            'transitions': sum(h['transitions'] for h in mc) +
                           sum(h['steps'] for h in seq),
            'traces_validated_against_impl':
                sum(h['executions'] for h in harnesses),
            'counting': '; '.join(counting),
        }
    else:
        coverage = {
            'evaluations': sum(h['steps'] for h in seq),
            'distinct_nontrivial': sum(h['states'] for h in seq),
            'rule': '; '.join(p.get('rule', '') for p in spec['parts']),
            'paths': sum(h['executions'] for h in seq),
        }
    coverage.update({'samples': samples, 'harnesses': per,
                     'exhaustive': exhaustive})
    e = {
        'property': prop,
        'tier': 'thorough' if thorough else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': spec['level'],
        'coverage': coverage,
        'assumptions': [a for p in spec['parts']
                        for a in p.get('assumptions', [])],
        'wall_s': round(wall, 3),
        'violations': violations,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', f'{prop}.json')
    with open(path + '.tmp', 'w', encoding='utf-8') as f:
        json.dump(e, f, indent=1)
    os.replace(path + '.tmp', path)


def symbolize(exe, message):
    """Replaces the program counters in the message."""
    def sub(m):
        r = subprocess.run(['addr2line', '-Cfse', exe, m.group(1)],
                           capture_output=True, text=True, check=False)
        lines = r.stdout.split('\n')
        return ' '.join(lines[:2])[-160:] if r.returncode == 0 else m.group(0)
    return re.sub(r'pc (0x[0-9a-f]+)', sub, message)


def cpu_has_fma():
    with open('/proc/cpuinfo', encoding='utf-8') as f:
        return ' fma ' in f.read()


def main():
    args = sys.argv[1:]
    prop = args.pop(0)
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    only = None
    build_only = False
    while args:
        a = args.pop(0)
        if a == '--thorough':
            thorough = True
        elif a == '--quick':
            thorough = False
        elif a == '--harness':
            only = args.pop(0)
        elif a == '--build-only':
            build_only = True
    spec = properties.SPECS[prop]
    start = time.time()
    generate()
    exes = [build(prop, part, i) for i, part in enumerate(spec['parts'])]
    log(f'{prop}: built in {time.time() - start:.1f} s')
    if build_only:
        return 0
    harnesses = []
    rc = 0
    for i, part in enumerate(spec['parts']):
        if part.get('fma') and not cpu_has_fma():
            log(f'{prop}: part {i} skipped, the processor has no FMA')
            continue
        time_s = part.get('thorough_time', 800) if thorough else part.get(
            'quick_time', 300)
        r, hs, _ = run(prop, exes[i], part, thorough, only, time_s, i)
        rc = rc or r
        for h in hs:
            h['kind'] = part['kind']
            h['message'] = symbolize(exes[i], h['message'])
        harnesses += hs
    violations = [h for h in harnesses if h['violation']]
    errors = [h for h in harnesses if h['error']]
    evidence(prop, spec, thorough, harnesses, time.time() - start,
             len(violations))
    for h in harnesses:
        log(f"  {h['name']}: {h['executions']} executions in {h['wall_s']:.1f} s"
            + (f" bound {h['bound_completed']}/{h['bound']}"
               f"{' CAPPED' if h['capped'] else ''}"
               f"{' truncated=%d' % h['truncated'] if h['truncated'] else ''}"
               f" outcomes {h['outcomes']}"
               if h['kind'] == 'mc' else
               f" states {h['states']} steps {h['steps']}"
               f"{'' if h['complete'] else ' INCOMPLETE'}"))
    for v in violations:
        # The replay files are kept beside the build.
        print(f"{v['name']}: {v['message']}")
        print(f"VIOLATION property={prop} replay={v['replay']}", flush=True)
    for key, text in known_findings(prop):
        if any(key in h.get('known', []) for h in harnesses):
            print(f'KNOWN-FINDING: property={prop} {text}', flush=True)
    if violations:
        return 1
    if errors or rc not in (0,):
        for e in errors:
            log(f"error in {e['name']}: {e['message']}")
        return 2
    for h in harnesses:
        if h['executions'] == 0:
            log(f"{h['name']}: nothing was explored")
            return 2
    log(f'{prop}: held; {time.time() - start:.1f} s')
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except BuildError as e:
        log(str(e))
        sys.exit(2)
