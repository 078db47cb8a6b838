#!/usr/bin/python3
"""Plants bugs: reads a Python file that defines BUGS, a list of dicts with keys
id, property, needs, breaks, edits=[(file, old, new)], demo (C++), and
optionally repo, protos, math, flags, libs, timeout.  For each one it verifies
that the patch builds and passes the tests, and that the demonstration fails
with it and passes without it, and writes seeded/<id>.  A development tool; it
temporarily modifies /repo."""
import json
import os
import re
import shutil
import subprocess
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEEDED = os.path.join(VERIF, 'seeded')
REPO = '/repo'
FLAGS = [
    '-std=c++23', '-O1', '-m64', '-msse4.1', '-include', 'cstdint',
    '-include', 'type_traits', '-include', 'concepts',
    '-include', '$here/shim/prelude.h', '-fbracket-depth=257', '-fdeclspec',
    '-ffp-contract=off', '-fno-char8_t', '-w', '-DNDEBUG',
    '-DPRINCIPIA_REQUIRES_AVX=0', '-DPRINCIPIA_REQUIRES_FMA=0',
    "'-DPROJECT_DIR=std::filesystem::path(\"ksp_plugin_adapter/\")'",
    "'-DSOLUTION_DIR=std::filesystem::path(\"/repo/\")'",
    "'-DTEMP_DIR=std::filesystem::path(\"/tmp\")'",
    "'-DPLATFORM_WITH_CPU_FEATURES=\"x64\"'",
    '-I$work/shim2', '-I$here/shim', '-I$repo', '-I$work/gen']
MATH = ['numerics/sin_cos.cpp', 'numerics/cbrt.cpp',
        'numerics/elliptic_functions.cpp', 'numerics/elliptic_integrals.cpp',
        'numerics/apodization.cpp', 'geometry/instant.cpp', 'base/cpuid.cpp']


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, errors='replace',
                          check=False, **kw)


def closure(names):
    seen, todo = [], list(names)
    while todo:
        n = todo.pop(0)
        if n not in seen:
            seen.append(n)
            todo += re.findall(r'import "serialization/(\w+)\.proto"', open(
                f'{REPO}/serialization/{n}.proto').read())
    return seen


ABSL = ('status statusor time strings time_zone int128 throw_delegate '
        'raw_logging_internal base cord cord_internal strings_internal '
        'str_format_internal synchronization hash raw_hash_set city '
        'low_level_hash spinlock_wait malloc_internal stacktrace symbolize '
        'debugging_internal demangle_internal graphcycles_internal '
        'bad_optional_access bad_variant_access strerror cordz_info '
        'cordz_handle cordz_functions exponential_biased '
        'hashtablez_sampler').split()


def plant(bug):
    d = os.path.join(SEEDED, bug['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree(os.path.join(VERIF, 'shim'), os.path.join(d, 'shim'))
    shutil.copy(os.path.join(HERE, 'gen_shim.py'), d)
    with open(os.path.join(d, 'demo.cc'), 'w') as f:
        f.write(bug['demo'].lstrip())
    protos = closure(bug.get('protos', []))
    sources = [f'$work/gen/serialization/{p}.pb.cc' for p in protos]
    sources += [f'$repo/{r}' for r in bug.get('repo', [])]
    if bug.get('math'):
        sources += [f'$repo/{m}' for m in MATH if m not in bug.get('repo', [])]
        sources.append('$here/shim/core_math.cpp')
    sources += ['$here/shim/runtime.cpp', '$here/demo.cc']
    libs = ['-Wl,--start-group', *[f'-labsl_{a}' for a in ABSL],
            '-Wl,--end-group', *(['-lprotobuf'] if protos else []),
            *(['-lquadmath'] if bug.get('math') else []),
            *bug.get('libs', []), '-lpthread']
    flags = FLAGS + bug.get('flags', [])
    with open(os.path.join(d, 'demo.sh'), 'w') as f:
        f.write(f'''#!/bin/bash
# Exits with 0 iff the demonstration passes.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
python3 "$here/gen_shim.py" "$work/shim2" "$work/shimmc" || exit 3
mkdir -p "$work/gen" "$work/obj"
{'(cd "$repo" && protoc -I . serialization/*.proto --cpp_out "$work/gen") || exit 3' if protos else ''}
for s in {' '.join(f'"{s}"' for s in sources)}; do
  echo "$s"
done | xargs -P 8 -I@ sh -c 'clang++-20 {' '.join(flags).replace("'", "'" + chr(92) + "''").replace('$work', "'$work'").replace('$here', "'$here'").replace('$repo', "'$repo'")} -c @ -o '$work'/obj/$(basename @).o' || exit 3
(cd "$work/obj" && mv demo.cc.o .. && ar rcs ../all.a *.o) || exit 3
clang++-20 -o "$work/demo" "$work/demo.cc.o" "$work/all.a" {' '.join(libs)} || exit 3
cd "$work"
timeout {bug.get('timeout', 120)} ./demo
''')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    assert sh(['git', '-C', REPO, 'status', '--porcelain']).stdout == ''
    ok = True
    try:
        for f, old, new in bug['edits']:
            p = os.path.join(REPO, f)
            s = open(p, encoding='utf-8').read()
            if s.count(old) != 1:
                print(bug['id'], f, 'old text found', s.count(old), 'times')
                return False
            open(p, 'w', encoding='utf-8').write(s.replace(old, new))
        diff = sh(['git', '-C', REPO, 'diff']).stdout
        open(os.path.join(d, 'patch.diff'), 'w', encoding='utf-8').write(diff)
        r = sh(['bash', '/opt/vp/build.sh'])
        t = sh(['bash', '/opt/vp/test.sh', '/tmp/plant.json'])
        if r.returncode or '22 passed, 0 failed' not in t.stdout:
            print(bug['id'], 'BUILD/TESTS', r.stdout[-600:], t.stdout[-300:])
            ok = False
        r = sh(['bash', os.path.join(d, 'demo.sh')], cwd=REPO)
        print(bug['id'], 'with the patch:', r.returncode,
              (r.stdout + r.stderr)[-300:].replace('\n', ' | '))
        if r.returncode in (0, 3):
            ok = False
    finally:
        sh(['git', '-C', REPO, 'checkout', '--', '.'])
    r = sh(['bash', os.path.join(d, 'demo.sh')], cwd=REPO)
    print(bug['id'], 'without the patch:', r.returncode,
          (r.stdout + r.stderr)[-300:].replace('\n', ' | '))
    if r.returncode:
        ok = False
    sh(['bash', '/opt/vp/build.sh'])
    meta = {'property': bug['property'], 'needs': bug['needs'],
            'what_it_breaks': bug['breaks']}
    if 'also' in bug:
        meta['also'] = bug['also']
    json.dump(meta, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    print(bug['id'], 'OK' if ok else 'REJECTED', flush=True)
    if not ok:
        shutil.move(d, f'/tmp/rejected.{bug["id"]}.{os.getpid()}')
    return ok


if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for bug in ns['BUGS']:
        if len(sys.argv) <= 2 or bug['id'] in sys.argv[2:]:
            plant(bug)
