MC = dict(flavor='mc', extra=['mc/mcrt.cpp'])
CHECKS = {
 'C01': dict(MC, harness='harness/c01_film.cpp',
   rule='a case is one film program (operation kinds, pixels per thread) plus one schedule of its atomic steps; distinct by program text'),
 'C02': dict(MC, harness='harness/c02_parallel.cpp',
   rule='a case is a sequence of parallel loops (sizes, throwing indices, progress interval, threads) plus one schedule; distinct by loop configuration'),
 'C03': dict(MC, harness='harness/c03_bvh_schedules.cpp',
   rule='a case is a triangle set, a worker count and one schedule of the builder threads; distinct by set and worker count'),
}
CHECKS['C02']['more'] = [dict(harness='harness/c02_large.cpp', flavor='rng')]
CHECKS['C04'] = dict(harness='harness/c04_raycast.cpp', flavor='asan',
   rule='a case is one scene of the lattice (triangle multiset, transforms, environment light); every lattice ray and interval is queried in it; distinct by scene description')
CHECKS['C05'] = dict(harness='harness/c05_assets.cpp', flavor='asan',
   rule='a case is one operation history (loads of every kind, replacements, failing constructions, nested groups, reset, save/load); distinct by operation list')
CHECKS['C08'] = dict(harness='harness/c08_serial.cpp', flavor='asan',
   rule='a case is one save/load history of a tree of all shipped components; every component is compared by its answers to a query lattice')
CHECKS['C10'] = dict(harness='harness/c10_scenegraph.cpp', flavor='asan',
   rule='a case is one history of scene graph operations; distinct by operation list')
CHECKS['C07'] = dict(harness='harness/c07_registry.cpp', flavor='asan', flags=['-fno-gnu-unique'],
   shared=[('vtplug_a.so', ['harness/c07_plug_a.cpp']), ('vtplug_b.so', ['harness/c07_plug_b.cpp'])],
   rule='a case is one history of registrations, unregistrations and plugin operations; distinct by operation list')
CHECKS['C16'] = dict(MC, harness='harness/c16_logger.cpp',
   rule='a case is one history of log, severity and indentation operations, or one set of thread programs plus one schedule of their locks and partial writes; distinct by operation list')
CHECKS['C17'] = dict(harness='harness/c17_progress.cpp', flavor='asan',
   rule='a case is one tree of backends and one timed sequence of reports; distinct by tree, events and times')
CHECKS['C15'] = dict(MC, harness='harness/c15_scheduler.cpp',
   rule='a case is a scheduler configuration, a course of virtual time and one schedule of the worker threads; distinct by configuration and round times')
CHECKS['C23'] = dict(harness='harness/c23_lifecycle.cpp', flavor='asan',
   rule='a case is one history of lifecycle operations; distinct by operation list')
CHECKS['C18'] = dict(harness='harness/c18_json.cpp', flavor='asan',
   rule='a case is a document value, a requested type and an access function (or a pair of documents, a template with arguments); distinct by these')
CHECKS['C06'] = dict(harness='harness/c06_locators.cpp', flavor='asan',
   rule='a case is one way of building and restoring a tree of all shipped components, or one prefix of locator strings with every continuation; distinct by history and prefix')
CHECKS['C09'] = dict(harness='harness/c09_truncated.cpp', flavor='asan',
   rule='a case is a saved file and the byte after which it is cut off (or the device is full), with an empty or a populated context; distinct by these')
CHECKS['C14'] = dict(harness='harness/c14_math.cpp', flavor='asan',
   rule='a case is a weight table, a direction, a box, a pair of transforms or a sampling function; all random numbers / rays of a lattice are queried in it; distinct by these')
CHECKS['C21'] = dict(harness='harness/c21_data.cpp', flavor='asan',
   rule='a case is one image file (format, channels, size, content, flip) or one mesh (index lists); all texture / barycentric coordinates of a lattice are queried in it; distinct by these')
CHECKS['C22'] = dict(harness='harness/c22_save.cpp', flavor='asan',
   rule='a case is a film (size, content), a format and a target path or a number of bytes the device accepts; distinct by these')
CHECKS['C19'] = dict(harness='harness/c19_obj.cpp', flavor='asan', repo_extra=['plugin/objloader_tinyobjloader/objloader_tinyobjloader.cpp'],
   rule='a case is one generated OBJ/MTL text (or one damaged byte of one); distinct by text')
CHECKS['C11'] = dict(harness='harness/c11_material.cpp', flavor='asan',
   rule='a case is a material configuration, a surface normal, a texel and an incident direction; all random numbers of a lattice and all outgoing directions of a grid are queried in it; distinct by these')
CHECKS['C12'] = dict(harness='harness/c12_light.cpp', flavor='asan',
   rule='a case is a light (parameters, emitter, transform, scene bound), a camera (pose, field of view, aspect ratio) or a scene of several lights; all random numbers, directions and reference points of a lattice are queried in it; distinct by these')
CHECKS['C20'] = dict(harness='harness/c20_media.cpp', flavor='rng',
   rule='a case is a phase function and incident direction, a volume, or a medium with a ray and an interval; all random number sequences of a fixed lattice are run in it; distinct by these')
CHECKS['C13'] = dict(harness='harness/c13_bidir.cpp', flavor='rng',
   rule='a case is a scene and a strategy with a path length; all random number sequences of a fixed lattice are run in it, every complete path found is evaluated under every strategy; distinct by scene, length and strategy')
CHECKS['C24'] = dict(harness='harness/c24_render.cpp', flavor='rng', more=[dict(MC, harness='harness/c24_mc.cpp')],
   rule='a case is a scene and a renderer configuration (all its path length ranges), or a renderer and one interleaving of two threads at their random number draws; distinct by these')

PY = dict(flavor='asan', repo_extra=['src/pylm.cpp'], flags=['-I/usr/include/python3.12'], link=['-lpython3.12'],
          env={'PYTHONPATH': '/opt/vp/venv/lib/python3.12/site-packages', 'PYTHONMALLOC': 'malloc', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONNOUSERSITE': '1'})
CHECKS['C25'] = dict(PY, harness='harness/c25_pyvalues.cpp',
   rule='a case is a document, an array (element type, shape, memory layout), a film, or a method with one argument set, and the direction in which it crosses; distinct by these')
CHECKS['C26'] = dict(PY, harness='harness/c26_pylife.cpp',
   rule='a case is a history of operations on assets implemented in Python; distinct by the registered class, the assets, what refers to them and what Python holds')
CHECKS['C27'] = dict(PY, harness='harness/c27_package.cpp',
   rule='a case is a class with its registration history, an array, a history of log operations, a sequence of progress reports, or a condition of a cell; distinct by these')
