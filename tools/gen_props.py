#!/usr/bin/env python3
"""Source of properties.jsonl (kept as Python for readability)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)))

prop('C01', 'Concurrent film updates are atomic per pixel and never lost or misplaced',
 'Whatever threads concurrently set, splat, update, average or accumulate into a film, its final content equals the result of some sequential order of those operations, with every colour channel of a pixel taken from the same update. Updates to one pixel never change another, a raster position lands in the pixel that contains it (clamped to the border), and a rescale multiplies every pixel exactly once.',
 ['schedules', 'programs'], 'all thread programs of up to 3 threads / 2-3 film operations and all interleavings of their atomic steps',
 'No unit test touches the film, and a lost update needs a particular interleaving of a load and a compare-exchange.',
 ['src/film/film_bitmap.cpp', 'include/lm/film.h'], [('compare-exchange update loop', 'src/film/film_bitmap.cpp AtomicWrapper'), ('raster to pixel clamping', 'include/lm/film.h raster_to_pixel')],
 ['Film::buffer() after the threads are joined'])

prop('C02', 'Parallel loop runs every index exactly once and reports exceptions',
 'A parallel loop that completes normally has invoked the body exactly once for every index in [0,n), each time with a thread index in [0, number of threads) that no other concurrently running body invocation holds, and no body runs after it returns. If a body throws, the loop still terminates, rethrows one of the thrown exceptions to the caller, never runs an index twice, starts no further index on a thread whose body threw, and leaves the context usable for the next loop. Progress is reported only from the thread with index 0, never decreases within a loop and never exceeds the number of indices of that loop.',
 ['schedules', 'fault_sequences'], 'all interleavings of 1-3 threads over loops of up to 4 indices, every subset of throwing indices, every progress interval, and sequences of loops',
 'No test runs the parallel module at all; double execution, lost exceptions and stale per-thread counters need particular interleavings and histories.',
 ['src/parallel/parallel_openmp.cpp', 'src/parallel/parallel.cpp', 'include/lm/parallel.h'], [('OpenMP dynamic loop with exception capture and cancellation flag', 'src/parallel/parallel_openmp.cpp foreach')],
 ['parallel::foreach return / exception', 'process and progress callbacks'])

prop('C03', 'Parallel BVH construction is correct under every thread schedule',
 'Building the acceleration structure with any number of worker threads terminates without deadlock or data race under every interleaving. Afterwards intersection queries return the same closest hit as testing every triangle, independently of the interleaving, also when several threads query at once.',
 ['schedules', 'inputs'], 'all interleavings (up to a preemption bound) of 1-3 builder threads over triangle sets that force leaves, splits and degenerate splits',
 'Tests never build an acceleration structure; a lost wakeup or an early termination shows up only in rare schedules.',
 ['src/accel/accel_sahbvh.cpp'], [('work queue with mutex, condition variable and processed-triangle counter', 'src/accel/accel_sahbvh.cpp build')],
 ['Accel::build termination', 'Accel::intersect'])

prop('C04', 'Ray casting returns the true closest hit of the scene',
 'For every scene and ray, a closest-hit query returns exactly the nearest triangle intersection inside the requested distance interval, and reports a miss exactly when there is none. The reported distance, barycentric coordinates, global transform, primitive and face identify that intersection, so that point, normal and texture coordinate of the returned surface interaction are those of the transformed triangle. Environment lights are reported only for rays that hit nothing within an unbounded interval, and two surface points are mutually visible exactly when no triangle blocks the segment between them. Building the structure again after the scene changed answers for the changed scene only.',
 ['inputs', 'configurations'], 'all small scenes over a triangle lattice (1-6 triangles, transformed and instanced) and all rays of a direction/origin lattice with several distance intervals',
 'The unit tests contain no ray cast; wrong pruning or interval handling only shows for particular triangle/ray/interval combinations.',
 ['src/accel/accel_sahbvh.cpp', 'src/scene.cpp', 'include/lm/math.h', 'include/lm/scene.h', 'include/lm/surface.h'], [('bounding volume traversal with shrinking interval', 'src/accel/accel_sahbvh.cpp intersect'), ('slab test', 'include/lm/math.h Bound::isect')],
 ['Accel::intersect', 'Scene::intersect', 'Scene::visible'])

prop('C05', 'Asset references always follow the current live asset',
 'After any history of loading, replacing, resetting and failed loads of assets, looking up an asset locator returns the instance of its latest successful load, and every weak reference held by any other live component designates the instance currently registered under the referenced locator. No component observed through the public interface is ever a released or never-constructed instance, and a rejected load (bad name, unknown implementation, throwing construction) leaves previously loaded assets and the references between them unchanged.',
 ['histories', 'fault_sequences'], 'all operation sequences up to a depth over a small universe of assets that refer to each other, with construction failing at every possible point',
 'test_assets.cpp samples two replacement histories; dangling references need particular orders of load, replace and failure.',
 ['src/assetgroup.cpp', 'src/user.cpp', 'include/lm/component.h', 'include/lm/assetgroup.h'], [('weak reference update visitor on replacement', 'src/assetgroup.cpp load_asset'), ('update_weak_ref', 'include/lm/component.h')],
 ['comp::get', 'lm::assets()->load_asset', 'observable behaviour of referencing components'])

prop('C06', 'Every component is reachable by exactly its own locator',
 'For every object reachable from the root through ownership, querying its own locator returns that very object, and visiting the underlying components reports every owned child as owned and every held reference as weak. No two components share a locator, also when they were created from names found in a file or restored from a saved state. Querying any other string - malformed, empty, with an empty or unknown path element, or without the root sign - returns null without crashing or throwing, unless it names a reference that the component before its last dot holds; a typed query returns null if the component lacks the interface. The printed asset tree shows every owned component once below its owner with its implementation key, and, if asked for, the references of each.',
 ['histories', 'inputs'], 'every built-in component configuration in a built scene and every one-edit mutation of every valid locator',
 'test_component.cpp queries four fixed locators of one toy hierarchy.',
 ['src/component.cpp', 'include/lm/component.h', 'src/assetgroup.cpp', 'src/scene.cpp', 'src/model/model_wavefrontobj.cpp', 'src/material', 'src/renderer'], [('locator resolution', 'src/component.cpp get'), ('underlying / foreach_underlying of each component', 'src/**')],
 ['comp::get', 'Component::loc', 'Component::foreach_underlying', 'Component::underlying', 'debug::print_asset_tree'])

prop('C07', 'Component registry and plugins follow registration history',
 'Creating a component by key or alias yields an instance of the latest registration of that key that has not been unregistered, carries that key, and is destroyed by the release function it was registered with; unknown keys yield null, and asking for an interface the implementation does not have yields null without leaking the instance. Loading a plugin makes its components creatable until it is unloaded, double loads are ignored, loading a plugin directory loads every plugin in it, and failed plugin loads or unloads of plugins that are not loaded throw and change nothing.',
 ['histories'], 'all sequences up to a depth of register, unregister, alias, create, destroy, load plugin, unload plugin, unload all over two keys, two aliases and two plugins',
 'test_component.cpp covers single create/destroy and one load; overriding, alias and unload orders are not sampled.',
 ['src/component.cpp', 'include/lm/component.h'], [('registration map and alias map', 'src/component.cpp ComponentContext'), ('unique_ptr deleter', 'include/lm/component.h ComponentDeleter')],
 ['comp::create', 'comp::load_plugin', 'comp::unload_plugin', 'comp::foreach_registered'])

prop('C08', 'Saved state restores every component to identical behaviour',
 'Saving the asset state to a file and loading it into a fresh context yields a component tree with the same locators, implementation keys and references, in which every component answers every query exactly as the original did, including image output of renderers run with the same random numbers. The same holds for a single asset saved and loaded under another name, and a component that refers outside of the saved subtree is rejected when saved.',
 ['configurations', 'histories'], 'every built-in component implementation and property combination from a catalogue, alone and composed in scenes, after every short load/replace history',
 'test_serial.cpp serializes toy components; no built-in component is ever round-tripped.',
 ['include/lm/serial.h', 'include/lm/serialtype.h', 'src/user.cpp', 'src/assetgroup.cpp', 'src/scene.cpp', 'src/**/*.cpp LM_SERIALIZE_IMPL'], [('per-component serialize functions', 'LM_SERIALIZE_IMPL in src/**'), ('owned/weak pointer encoding by relative locator', 'include/lm/serialtype.h')],
 ['lm::save_state_to_file', 'lm::load_state_from_file', 'AssetGroup::load_serialized', 'Component::save_to_file'])

prop('C09', 'Truncated or missing state files are rejected, never half-accepted',
 'Loading a state or asset file that is missing or was cut off at any byte throws instead of returning, never crashes, and leaves everything loaded before, the references between it, and the ability to load a complete file unchanged. A failed load of a serialized asset (also by an invalid or taken name, or a file naming an unknown implementation) does not leave its name occupied. Saving the state returns normally exactly when the complete file was written, whatever amount of data the device accepts.',
 ['crash_points', 'fault_sequences'], 'every truncation point of saved state files of several scenes and assets, and a device that accepts any number of bytes',
 'No test loads a damaged file.',
 ['include/lm/serial.h', 'include/lm/serialtype.h', 'src/user.cpp', 'src/assetgroup.cpp'], [('archive exceptions', 'cereal archives via include/lm/serial.h')],
 ['lm::load_state_from_file', 'AssetGroup::load_serialized'])

prop('C10', 'Scene graph is flattened with the right transforms, lights and indices',
 'For every scene graph built through the public operations, traversal reports each primitive once per distinct path from the root with the product of the transforms along that path. After a build, the lights are exactly the light-carrying primitive occurrences, selecting a light by any random number and evaluating its probability agree with a uniform choice over them, light index and node index map to each other, and camera, environment light and medium designate the nodes created for them. Invalid operations (bad parent or child index, children of a primitive, a cycle, missing or inconsistent assets of a primitive, two environment lights, missing pieces at render time) are reported as errors without corrupting the graph.',
 ['histories', 'programs'], 'all sequences up to a depth of node-creating and linking operations, including instance groups and repeated sharing',
 'No test builds a scene graph.',
 ['src/scene.cpp', 'include/lm/scene.h', 'include/lm/scenenode.h'], [('graph traversal and light table', 'src/scene.cpp build / traverse_primitive_nodes')],
 ['Scene::traverse_primitive_nodes', 'Scene::visit_node', 'Scene::num_lights', 'Scene::sample_light_selection'])

prop('C11', 'Every material samples exactly the distribution and BSDF it reports',
 'For every material, incident direction (not tangential) and random numbers, a sampled direction has a strictly positive reported density (w.r.t. projected solid angle), and its weight equals the BSDF value over that density (or the analogue for specular components, which evaluate to zero when their delta function is asked for); the fraction of random numbers sent into any set of directions equals the density integrated over that set, at most one in total. Component selection probabilities are non-negative, sum to one over the components and match the selection frequency. BSDF values are non-negative, reciprocal for non-specular components, and no query returns NaN or a negative value. Mixtures are the weighted sum of their entries, proxies equal what they refer to, and diffuse, mirror, mask and glass materials follow their documented BSDF.',
 ['inputs', 'configurations'], 'all built-in materials over a lattice of incident directions, geometry, uv and random numbers (stratified lattice covering the whole unit cube)',
 'No test evaluates a material.',
 ['src/material', 'src/model/model_wavefrontobj.cpp', 'include/lm/material.h', 'include/lm/math.h', 'include/lm/surface.h'], [('sample/eval/pdf triples', 'src/material/*.cpp')],
 ['Material::sample_direction', 'Material::pdf_direction', 'Material::eval', 'Material::sample_component', 'Material::pdf_component'])

prop('C12', 'Lights and cameras sample exactly the distribution they report',
 'For every light and camera and every random number, a sampled ray, position or direction towards a reference point carries weight equal to the evaluated contribution divided by the reported density of that sample; densities are finite, non-negative and normalised over their domain. Sampled points lie on the emitter, degenerate and infinite emitters are flagged as such, and the primary ray through a raster position projects back to that raster position.',
 ['inputs', 'configurations'], 'all built-in lights and cameras over a lattice of transforms, reference points and random numbers',
 'No test evaluates a light or camera.',
 ['src/light', 'src/camera/camera_pinhole.cpp', 'include/lm/light.h', 'include/lm/camera.h', 'include/lm/path.h'], [('sample/eval/pdf of lights and camera', 'src/light/*.cpp, src/camera/*.cpp')],
 ['Light::sample_ray', 'Light::sample_direct', 'Camera::sample_ray', 'path::sample_*'])

prop('C13', 'Bidirectional path strategies agree and their MIS weights sum to one',
 'For every complete light path and every strategy able to sample it, contribution divided by path density equals the sampling weight of that strategy, and for paths without refraction and without interpolated normals the measurement contribution is the same for all strategies. The multiple-importance weights over all strategies that can sample a path are non-negative and sum to one, a strategy that cannot generate a path has zero density, and the averages of the weighted strategies and of each single strategy over the random numbers agree with an independent integral of the path contribution.',
 ['inputs', 'configurations'], 'all paths of 2-5 vertices that the subpath samplers generate over a lattice of random numbers in scenes covering every light, camera and material class, and all strategies of each',
 'No test constructs a path.',
 ['include/lm/bidir.h', 'include/lm/path.h'], [('pdf_bidir / eval_mis_weight / eval_sampling_weight_bidir', 'include/lm/bidir.h')],
 ['lm::Path functions', 'path::connect_subpaths'])

prop('C14', 'Discrete distributions and sampling helpers are exact inverses of their pdf',
 'A one- or two-dimensional discrete distribution built from non-negative weights assigns each bin probability proportional to its weight, sampling with u selects exactly the bin whose cumulative interval contains u and never a zero-probability bin, and the density over the unit domain is normalised even when some rows or bins are zero. Direction and triangle sampling helpers map the unit square into their domain with the density they claim, orthonormal bases are orthonormal and right-handed, and transforms invert; generators of random numbers with equal seeds yield equal numbers in [0,1).',
 ['inputs'], 'all weight vectors up to length 5 and all 2-d tables up to 3x3 over a small weight alphabet, all random numbers of a lattice that includes every cumulative boundary',
 'No C++ test covers these helpers.',
 ['include/lm/math.h'], [('Dist / Dist2 / sample_cosine_weighted / orthonormal_basis', 'include/lm/math.h')],
 ['Dist', 'Dist2', 'math::*'])

prop('C15', 'Schedulers dispatch every requested sample exactly once',
 'A scheduler limited by samples invokes the process for every combination of pixel and sample index exactly once with correct indices and returns the number of samples processed; a scheduler limited by time stops after the first round that exceeds the budget, never skips or repeats a (pixel, sample) combination before that, and returns exactly the number of samples it dispatched. Progress is reported as one start, non-decreasing updates that never exceed the total number of samples or the elapsed time, and one end, also when the process throws.',
 ['configurations', 'schedules'], 'all film sizes up to 3x3, sample counts and time budgets up to a bound, every clock trace of a virtual clock and every assignment of samples to threads',
 'No test runs a scheduler.',
 ['src/scheduler.cpp', 'include/lm/scheduler.h'], [('spp/spi x sample/time loops', 'src/scheduler.cpp')],
 ['scheduler::Scheduler::run'])

prop('C16', 'Logger emits exactly the admitted messages with the right indentation',
 'A log message is delivered exactly once if its severity is at least the configured one and not at all otherwise, with its full text, multi-line messages line by line, and indented by the number of indentation scopes opened since the logger was initialised and still open, which returns to its previous depth when a scope ends, also by exception. A progress message replaces the previous one on its line, and after the end of progress a new line begins. Messages logged concurrently are never interleaved within a message or lost.',
 ['histories', 'schedules'], 'all sequences up to a depth of log, indent, unindent, severity change, re-initialisation; all interleavings of two logging threads',
 'test_logger.cpp logs a few messages without checking output.',
 ['src/logger.cpp', 'include/lm/logger.h', 'include/lm/loggercontext.h'], [('severity filter, indentation counter, mutex', 'src/logger.cpp')],
 ['bytes written to standard output', 'log contexts'])

prop('C17', 'Progress reports are forwarded, muxed and delayed faithfully',
 'A progress report sequence reaches the registered backend unchanged: start, updates and end in order, once each, to every backend of a multiplexer in registration order. A delaying backend lets through every start and end, and an update exactly when more than its delay has elapsed since the last start or update it let through; a multiplexer or delaying backend whose underlying backend cannot be created is rejected.',
 ['histories'], 'all sequences up to a depth of start/update/end with a virtual clock over every composition of backends',
 'No test covers progress reporting.',
 ['src/progress.cpp', 'include/lm/progress.h', 'include/lm/progresscontext.h'], [('mux and delay contexts', 'src/progress.cpp')],
 ['calls received by a recording backend'])

prop('C18', 'Typed JSON access returns the given value or raises a typed error',
 'Reading a parameter returns exactly the stored value converted to the requested type (a number that the requested type can represent), the default only when the key is absent, and raises an exception - never a crash or a silently wrong value - when the value has another type, and an invalid-argument error when a required key is missing, a vector or matrix has the wrong number of elements, or a component reference does not resolve to a component of the requested interface. Vectors, matrices and pointers survive a round trip through JSON; merging keeps the values of the overriding document and everything else of the base; positional arguments are substituted by index and missing ones raise an error.',
 ['inputs'], 'all JSON documents up to a size over a small alphabet of values, all requested types',
 'test_json.cpp samples a handful of documents.',
 ['include/lm/json.h', 'include/lm/jsontype.h', 'src/parallel'], [('value / comp_ref / adl serializers', 'include/lm/json.h')],
 ['lm::json::*'])

prop('C19', 'Wavefront OBJ files load to exactly the geometry they describe',
 'Loading a well-formed Wavefront OBJ/MTL pair yields exactly the described triangles - positions, normals and texture coordinates through 1-based and negative indices, polygons as a triangle fan, faces grouped under the active material, groups and materials with their parameters - in file order. A missing or unreadable file, a face with fewer than three vertices, referring to missing vertices or giving attributes for some of its vertices only, and the use of an unknown material or library are reported as a failed load; no damaged file crashes or yields geometry that refers to missing data.',
 ['inputs'], 'all OBJ texts up to a length over a token grammar (all index forms, statement orders, blanks, comments, line ends) and every truncation',
 'No stable test loads an OBJ file.',
 ['src/objloader/objloader_simple.cpp', 'src/objloader/objloader.cpp', 'src/model/model_wavefrontobj.cpp', 'src/mesh'], [('hand-written scanner', 'src/objloader/objloader_simple.cpp')],
 ['objloader::load', 'Mesh::foreach_triangle', 'Model::foreach_node'])

prop('C20', 'Participating media, phase functions and volumes are self-consistent',
 'For every medium, ray and interval, transmittance lies in [0,1] per channel, multiplies over adjacent intervals, equals one outside of the medium and agrees with the probability of sampling no collision; sampled distances lie inside the interval and the medium, with weight equal to transmittance (times scattering) over density. Phase functions are normalised, sample what they report and are symmetric; volume queries return the declared bounds, maxima that are never exceeded, and the values of their definition.',
 ['inputs', 'configurations'], 'all built-in media, volumes and phase functions over a lattice of rays, intervals and random numbers',
 'No test covers media.',
 ['src/medium', 'src/phase', 'src/volume', 'include/lm/medium.h', 'include/lm/phase.h', 'include/lm/volume.h'], [('sample_distance / eval_transmittance', 'src/medium/*.cpp')],
 ['Medium::*', 'Phase::*', 'Volume::*'])

prop('C21', 'Textures and meshes return the data they were given',
 'A mesh reports exactly the triangles, interpolated positions, normals and texture coordinates of its input for every face and barycentric coordinate; a bitmap texture returns the texel that contains the texture coordinate under repeat wrapping, with the vertical orientation, colour conversion (a one- or two-component image is grayscale) and, if the image has one, alpha of the image file; a constant texture returns its colour and alpha everywhere.',
 ['inputs'], 'all small images and meshes over a lattice of contents, all texture coordinates of a lattice crossing every texel border and wrap',
 'No test covers textures or meshes.',
 ['src/texture', 'src/mesh', 'include/lm/texture.h', 'include/lm/mesh.h'], [('texel addressing', 'src/texture/texture_bitmap.cpp'), ('triangle access', 'src/mesh/*.cpp')],
 ['Texture::eval', 'Mesh::surface_point', 'Mesh::triangle_at'])

prop('C22', 'Saved images contain the film, and failed saves are reported',
 'Saving a film writes an image file whose size and pixels equal the film under the format mapping (8-bit gamma for PNG, RGBE for HDR, raw float for PFM) in the orientation of the format, creates missing directories, clamps what the format cannot represent, and returns true exactly when the complete file was written; otherwise it returns false and never crashes.',
 ['inputs', 'fault_sequences'], 'all films up to 3x3 over a value alphabet including negative, huge and non-finite values, all formats, and a write fault injected at every system call of the save',
 'No test saves a film.',
 ['src/film/film_bitmap.cpp'], [('save / copy / writePfm', 'src/film/film_bitmap.cpp')],
 ['Film::save return value', 'bytes of the written file'])

prop('C23', 'Framework lifecycle: contexts initialise, reset and shut down cleanly',
 'After any history of init, shutdown, reset and context re-initialisation, calls that need an initialised framework raise an uninitialised error when it is not, work when it is, and re-initialising replaces the previous context with the new type and parameters. The configured number of threads, severity and backends in effect are those of the latest initialisation, initialising a subsystem with an unknown type or invalid parameters leaves it uninitialised, and scoped initialisation restores the uninitialised state on scope exit.',
 ['histories'], 'all sequences up to a depth of init/shutdown/reset/re-init of each context and uses of it',
 'Tests initialise once in main and never shut down.',
 ['src/user.cpp', 'include/lm/component.h', 'src/parallel', 'src/logger.cpp', 'src/progress.cpp', 'src/exception.cpp', 'src/objloader'], [('ContextInstance singleton', 'include/lm/component.h'), ('UserContext', 'src/user.cpp')],
 ['public functions of each module'])

prop('C24', 'Renderers compute the same image, bounded by their configured path lengths',
 'For every scene, the unbiased renderers (path tracing with and without next-event estimation, light tracing, the bidirectional and the volumetric ones) estimate the same image, restricted to the configured range of path lengths and to the paths the technique can generate (light tracing cannot see emitters or perfectly specular surfaces directly, next-event estimation needs a connectable light), so that averaging over all random numbers of a lattice gives equal pixel values, and values equal to the known solution where there is one. A renderer clears its film, normalises by the number of samples processed, reports that number, refuses scenes that are not renderable, renders scenes without participating media with the volumetric techniques like with the surface ones, and with a fixed random stream per sample produces the same image under every assignment of samples to threads, which share no unsynchronised state; equal seeds give equal images and different threads draw different random numbers.',
 ['inputs', 'configurations', 'schedules'], 'small scenes with every light class, material class and medium class, path length ranges up to 10 vertices, all random number sequences of shifted lattices; all assignments of a few samples to up to three threads',
 'No test renders.',
 ['src/renderer', 'include/lm/path.h', 'include/lm/bidir.h'], [('renderers', 'src/renderer/*.cpp')],
 ['Renderer::render', 'Film::buffer'])

prop('C25', 'Values and calls cross the Python boundary unchanged',
 'A JSON-like document given from Python (None, booleans, integers of up to 64 bits, floats, strings, lists, tuples, dictionaries, components) arrives in C++ as the equal document, with a component standing for its locator, and a document handed to Python arrives as the equal Python value; anything else is refused with an exception, never a crash or a different value. Vectors and matrices keep every element at its row and column in both directions for every memory layout of the array (contiguous, transposed, strided, reversed), arrays of another shape are refused and those of another number type refused or converted by value, and the film buffer shown to Python has the shape and pixels of the film. Calling a component from Python calls its C++ implementation with the given arguments and returns its answer; calling a component implemented in Python from C++ calls the Python method of that name with the given arguments and returns its answer, an exception raised in it reaches the caller, and a method left out is reported as an error or has the default of the interface.',
 ['inputs', 'programs'], 'all documents up to a size and depth over an alphabet of values including the limits of the integer types; all vectors and matrices over layouts, number types and shapes; every method of every interface exposed to Python, called in both directions with two sets of arguments',
 'The Python tests compare a few documents and vectors; no C++ test covers the binding.',
 ['include/lm/pylm.h', 'src/pylm.cpp'], [('type casters for JSON, vectors and matrices', 'include/lm/pylm.h'), ('trampolines and bindings of every interface', 'src/pylm.cpp')],
 ['Python values', 'Component::construct', 'methods of the interfaces'])

prop('C26', 'Components implemented in Python live exactly as long as they are used',
 'An asset implemented in Python stays alive without any Python reference to it as long as it is an asset, is the very object that querying its locator from Python returns, and serves C++ components that refer to it. Once it is replaced (by a Python or C++ implementation), the assets are reset or the framework is initialised again, or its construction failed, the Python object is released unless Python code holds it, in which case it stays usable and is released when dropped; nothing is released twice. New instances are of the class registered last, and unregistering does not affect existing ones. Saving and restoring the state or a single asset hands every restored implementation exactly the bytes the saved one returned (films excepted).',
 ['histories'], 'all sequences up to a depth of 16 operations: load, replace, failing construction, refer, hold, drop, register, re-register, unregister, save, restore, reset, re-initialise; all asset interfaces x saved values',
 'test_component.py creates a few objects and never releases assets.',
 ['include/lm/pylm.h', 'src/pylm.cpp', 'src/assetgroup.cpp'], [('creation and release of Python instances', 'include/lm/pylm.h reg_comp_wrap'), ('serialization trampolines', 'include/lm/pylm.h PYLM_SERIALIZE_IMPL')],
 ['weak references to Python objects', 'lm.load', 'lm.get', 'lm.save_state_to_file'])

prop('C27', 'The Python package and its notebook backends show what the framework reports',
 'The decorator of the Python package registers a class whose first base is, directly or indirectly, a component interface under the given name and leaves the class as it is; arrays made by the package have the floating-point type of the framework unless another is asked for and are accepted by it; the list of registered components has each exactly once. The notebook logger prints a message exactly if its severity is admitted, once and in full with its level, elapsed time, if asked for file and line, and indentation, warnings and errors to the error stream and the rest to the output stream. The notebook progress bar has the total of the report, shows the largest progress reported without ever going back, and is complete and closed once after the end, for every sequence of reports by samples or time. The notebook film display shows the current film of the given locator upright with gamma mapping at every update and at the end. Conditional cells run exactly when their condition says so.',
 ['histories', 'inputs'], 'all registrations of 16 interfaces in 4 ways; all arrays of a list; all histories of log, severity and indentation operations, of progress reports, of film updates and replacements up to a depth; all conditions of a list',
 'No test touches the package beyond importing it; the notebook module is not imported by any test.',
 ['lightmetrica/__init__.py', 'lightmetrica_jupyter/__init__.py'], [('package', 'lightmetrica/__init__.py'), ('notebook backends', 'lightmetrica_jupyter/__init__.py load_ipython_extension')],
 ['lm.pylm_component', 'lm.array', 'lm.registered_components', 'logger::jupyter', 'progress::jupyter', 'progress::film_jupyter'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
