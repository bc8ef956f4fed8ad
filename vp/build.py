"""Build liblm (from /repo's *current working tree*) plus one harness into /verif/build/<flavor>.

The library is compiled in a handful of unity translation units, because nearly
all compile time goes into re-parsing the same heavy headers: a full build then
takes ~20 s on 8 cores.  If a unity group does not compile (a refactoring may
introduce the same file-local helper name in two files), everything is rebuilt
one file per translation unit.
"""
import fcntl, hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))

DEFS = ('-DFMT_HEADER_ONLY=1 -DGLM_FORCE_INTRINSICS -DLM_EXPORTS '
        '-DLM_USE_CONFIG_RELEASE -D_CRT_SECURE_NO_WARNINGS '
        '-D_SILENCE_ALL_CXX17_DEPRECATION_WARNINGS -DNDEBUG').split()
COMMON = ['-std=gnu++17', '-fPIC', '-w', '-pipe', '-fopenmp']

FLAVORS = {
    'plain': dict(cxx='g++', flags=['-O1'], link=[]),
    'asan':  dict(cxx='g++', flags=['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer'],
                  link=['-fsanitize=address']),
    # all random numbers are drawn from a hook (vp/rngctl.h)
    'rng':   dict(cxx='g++', flags=['-O2', '-g1', '-include', os.path.join(VERIF, 'vp/rngctl.h')], link=[]),
    # every memory access / atomic of liblm calls into mc/mcrt.cpp (our own __tsan_* runtime)
    'mc':    dict(cxx='g++', flags=['-O1', '-g1', '-fsanitize=thread'], link=[]),
}

# Files that must not share a translation unit with anything else.
SINGLE = ['film/film_bitmap.cpp', 'texture/texture_bitmap.cpp', 'accel/accel_sahbvh.cpp',
          'renderer/renderer_bdptopt.cpp', 'logger.cpp', 'parallel/parallel.cpp', 'debug.cpp',
          'parallel/parallel_openmp.cpp', 'exception.cpp']
NGROUPS = 7


def sources():
    txt = open(os.path.join(REPO, 'src/CMakeLists.txt')).read()
    txt = txt.split('# Python binding')[0]
    out = []
    for m in re.finditer(r'"\$\{_SOURCE_DIR\}/([^"]+\.cpp)"', txt):
        if m.group(1) not in out:
            out.append(m.group(1))
    return [s for s in out if os.path.exists(os.path.join(REPO, 'src', s))]


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, 'w') as f:
        f.write(text)


def units(bdir, subset, unity):
    srcs = sources()
    if subset is not None:
        srcs = [s for s in srcs if s in subset]
    res = []
    rest = []
    for s in srcs:
        if not unity or s in SINGLE:
            res.append((s.replace('/', '_')[:-4], os.path.join(REPO, 'src', s)))
        else:
            rest.append(s)
    if rest:
        groups = [[] for _ in range(min(NGROUPS, len(rest)))]
        # biggest first, always to the lightest group
        size = lambda s: 3000 + os.path.getsize(os.path.join(REPO, 'src', s))
        for s in sorted(rest, key=lambda s: (-size(s), s)):
            min(groups, key=lambda g: sum(map(size, g))).append(s)
        for i, g in enumerate(groups):
            p = os.path.join(bdir, 'unity%d.cpp' % i)
            write_if_changed(p, ''.join('#include "%s"\n' % os.path.join(REPO, 'src', s) for s in sorted(g)))
            res.append(('unity%d' % i, p))
    return res


def content_guard(bdir):
    """ninja trusts time stamps; a changed file that looks old (restored copy) forces a clean build."""
    stamp = os.path.join(bdir, 'content.json')
    now = {}
    for top in ('src', 'include', 'pch', 'plugin', 'functest', 'example'):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            for f in fs:
                p = os.path.join(d, f)
                now[p] = hashlib.sha1(open(p, 'rb').read()).hexdigest()
    try:
        old = json.load(open(stamp))
    except (OSError, ValueError):
        old = None
    if old is not None:
        if any(old['files'].get(p) != h and os.path.getmtime(p) <= old['time'] + 1 for p, h in now.items()) \
           or set(old['files']) - set(now):
            for f in os.listdir(bdir):
                if f.endswith('.o'):
                    os.unlink(os.path.join(bdir, f))
    with open(stamp, 'w') as f:
        json.dump({'files': now, 'time': time.time()}, f)


def build(name, flavor, harness, extra_flags=(), extra_srcs=(), instrument=None, link=(), subset=None,
          shared=(), verbose=False, lib_flags=()):
    """Returns (path_to_binary or None, log)."""
    fl = FLAVORS[flavor]
    log = ''
    for unity in ((True,) if os.environ.get('VP_DEV') else (True, False)):
        tag = flavor + ('' if unity else '-single')
        bdir = os.path.join(BUILD, tag)
        os.makedirs(bdir, exist_ok=True)
        write_if_changed(os.path.join(bdir, 'versiondef.h'),
                         '#pragma once\n#define LM_VERSION_MAJOR 3\n#define LM_VERSION_MINOR 0\n'
                         '#define LM_VERSION_PATCH 0\n#define LM_VERSION_REVISION "verif"\n'
                         '#define LM_BUILD_TIMESTAMP "verif"\n')
        inc = ['-I%s/include' % REPO, '-I%s/pch' % REPO, '-I' + bdir, '-I%s' % VERIF]
        us = units(bdir, subset, unity)
        n = ['ninja_required_version = 1.3', 'builddir = ' + bdir,
             'rule cxx', '  command = %s $flags -MD -MF $out.d -c $in -o $out' % fl['cxx'],
             '  depfile = $out.d', '  deps = gcc', '  description = CXX $out',
             'rule ar', '  command = rm -f $out && ar rcs $out $in',
             'rule link', '  command = %s -fopenmp $in -o $out $lflags' % fl['cxx'],
             'rule so', '  command = %s -shared -fPIC -fopenmp $in -o $out $lflags' % fl['cxx']]
        base = COMMON + DEFS + inc
        objs = []
        for nm, path in us:
            o = os.path.join(bdir, nm + '.o')
            f = base + fl['flags'] + list(lib_flags)
            n += ['build %s: cxx %s' % (o, path), '  flags = ' + ' '.join(f)]
            objs.append(o)
        # liblm itself is a shared object, as in the real build (plugins bind to it)
        so = os.path.join(bdir, 'liblm_verif.so')
        libs = ['-lstdc++fs', '-latomic', '-ldl', '-lpthread']
        hobjs = []
        hflags = [x for x in fl['flags'] if not (flavor == 'mc' and x == '-fsanitize=thread')]
        for i, s in enumerate([harness] + list(extra_srcs)):
            o = os.path.join(bdir, '%s_%d_%s.o' % (name, i, os.path.basename(s)))
            n += ['build %s: cxx %s' % (o, s), '  flags = ' + ' '.join(base + hflags + list(extra_flags))]
            hobjs.append(o)
        exe = os.path.join(bdir, name)
        deps = []
        for soname, srcs in shared:
            sobjs = []
            for s in srcs:
                o = os.path.join(bdir, soname + '_' + os.path.basename(s) + '.o')
                n += ['build %s: cxx %s' % (o, s), '  flags = ' + ' '.join(base + hflags + list(extra_flags))]
                sobjs.append(o)
            p = os.path.join(bdir, soname)
            n += ['build %s: so %s | %s' % (p, ' '.join(sobjs), so),
                  '  lflags = ' + ' '.join(list(fl['link']) + [so] + libs)]
            deps.append(p)
        if flavor == 'mc':
            # one static image: the runtime must interpose on everything
            n += ['build %s: link %s' % (exe, ' '.join(hobjs + objs)),
                  '  lflags = ' + ' '.join(['-rdynamic'] + list(fl['link']) + list(link) + libs)]
        else:
            n += ['build %s: so %s' % (so, ' '.join(objs)), '  lflags = ' + ' '.join(list(fl['link']) + libs)]
            n += ['build %s: link %s %s | %s' % (exe, ' '.join(hobjs), so, ' '.join(deps)),
                  '  lflags = ' + ' '.join(['-rdynamic', '-Wl,-rpath,' + bdir] + list(fl['link']) + list(link) + libs)]
        nf = os.path.join(bdir, name + '.ninja')
        write_if_changed(nf, '\n'.join(n) + '\n')
        with open(os.path.join(bdir, '.lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            content_guard(bdir)
            p = subprocess.run(['ninja', '-f', nf, '-j', str(os.cpu_count() or 8)] + deps + [exe],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        log = p.stdout
        if verbose or p.returncode:
            sys.stderr.write(log[-6000:])
        if p.returncode == 0:
            return exe, log
    return None, log
