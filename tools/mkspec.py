#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DH, FF, FG, FO, UT = ('shgpy/core/data_handler.py', 'shgpy/fformfit.py', 'shgpy/fformgen.py',
                      'shgpy/formgen.py', 'shgpy/core/utilities.py')
FT = 'shgpy/core/_fourier_transform.py'


def m(name, where):
    return {'name': name, 'where': where}


TESTS = ('The existing tests run each call once, alone, in one process, on a quiet file system, with a handful of '
         'hand-picked formulas; ')

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, tech=None, note=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  state=state, tech=tech, note=note, observe=observe))


prop('C01', 'A formula saved with save_fform comes back the same',
     'Saving any Fourier-space formula and loading it, in any process and however often, gives a formula with the same '
     'polarization keys in the same order, the same M, the same symbols with the same assumptions (so the same '
     'get_free_symbols()) and equal components; saving what was loaded changes nothing. It also holds when reads and '
     'writes are short or interrupted by signals and when clocks jump, and none of these makes either call fail.',
     ['inputs', 'histories', 'fault_sequences'],
     'Every formula (any keys, M, symbol names, assumptions, coefficients), every chain of save/load over several '
     'processes with different hash seeds, every placement of short or interrupted I/O and clock jumps.',
     TESTS + 'no test loads in another process or compares symbols, M or key order.',
     [DH, UT], [m('pickle round trip', DH + ':save_fform, load_fform'), m('M kept beside the components', DH + ':load_fform'),
                m('replace by rename', UT + ':_replacing')],
     tech='deterministic simulation: save/load chains across processes with short, interrupted I/O and clock jumps, against a reference formula')

prop('C02', 'An interrupted or failed save never corrupts what was saved before',
     'When a save of a formula, cost function, gradient set or model folder fails, is interrupted or is killed at any '
     'point, a later load of that path gives exactly the previous value or exactly the new one, never a mixture, a '
     'truncated artifact or something else. A formula file or cost function file that existed before stays loadable; '
     'for a model folder or gradient set the load may instead raise an error.',
     ['crash_points', 'fault_sequences', 'histories'],
     'Every operation a save performs (open, write, rename, unlink, mkdir, compiler run, library load) as the place '
     'where it fails with an I/O error, a full disk, a compiler failure, Ctrl-C or a kill (also in the middle of a write).',
     TESTS + 'no test fails, interrupts or kills a save.',
     [DH, FF, UT], [m('staging and rename', UT + ':_replacing'), m('folder staged and swapped', FF + ':_replacing_folder'),
                    m('gradient set published last-first', FF + ':_publish_energy_and_denergy_func')],
     tech='deterministic simulation with injected crashes, I/O errors, full disks and compiler failures; register model with may-have-happened saves')

prop('C03', 'A save or fit that reports success is complete and correct',
     'When a call that saves a formula, generates or saves a cost function, gradient or model function, loads one, or '
     'fits, returns normally, the saved artifact is complete and loads in another process, and any returned function or '
     'fit result is right, even if system calls or the compiler failed underneath. If it cannot do so the call raises. '
     'Short or interrupted system calls and clock jumps alone never make a call fail.',
     ['fault_sequences', 'histories'],
     'Every operation performed during each call, failing with every error the operation can return; every compiler '
     'failure; single and double faults.',
     TESTS + 'no test makes an underlying call fail, so nothing shows that failures are noticed.',
     [DH, FF], [m('compiler status', FF + ':_run_compiler'), m('library opened', FF + ':_open_library'),
                m('formula file', DH + ':save_fform')],
     tech='deterministic simulation with single-operation fault injection; returned artifacts compared with a reference evaluator')

prop('C04', 'Compiled cost functions and gradients compute the documented cost',
     'A generated or loaded cost function returns, for every parameter vector, the sum over polarization combinations '
     'and Fourier components of |formula - data|^2 with parameters in get_free_symbols() order (or in argument_list '
     'order), whether or not it was built in chunks and whatever the memory layout or numeric type of the vector; the '
     'gradients used by the *_jac fits are its partial derivatives. It stays so regardless of other functions '
     'generated, loaded, overwritten or evaluated before, between or at the same time in this or other processes.',
     ['inputs', 'histories', 'schedules'],
     'Every formula, data set, argument order, chunking, vector layout and every interleaving with other generations, '
     'loads and evaluations in threads and processes.',
     TESTS + 'the fits are compared with stored optima for two formulas; no test varies layout, argument_list or history.',
     [FF], [m('energy expression', FF + ':_make_energy_expr, _make_energy_expr_list'), m('code generation', FF + ':_fixed_autowrap, _make_energy_func_chunked'),
            m('ctypes call', FF + ':_load_func')],
     tech='deterministic simulation: histories and scheduled threads/processes over generated functions against an independent evaluator')

prop('C05', 'Compiled model functions compute the formula they were generated from',
     'A generated or loaded model function returns, for every parameter vector in get_free_symbols() order, every '
     'polarization combination and every m from -M to M, the complex value of that Fourier component of the formula, '
     'for any max_terms_per_file and any memory layout of the vector. It stays so when the folder is overwritten by '
     'another model (functions obtained earlier keep their values, a load gives the new one), whatever order the file '
     'system lists directories in and whatever else is generated or loaded.',
     ['inputs', 'histories', 'configurations'],
     'Every formula, max_terms_per_file, folder history, directory order, process.',
     TESTS + 'one small model is generated once.',
     [FF], [m('model code generation', FF + ':gen_model_func, _fixed_autowrap_model'), m('folder reading', FF + ':load_model_func, _load_func_dict'),
            m('term splitting', FF + ':_split_expr')],
     tech='deterministic simulation: folder histories with shuffled directory order and threads against an independent evaluator')

prop('C06', 'A load returns what the latest completed save put at that path',
     'For every history of saves and loads of a path, in one or several processes or threads and through any spelling '
     'of the path (absolute, relative, bare file name, Path object, symlink), a load returns the value of the latest '
     'save completed before it or of a save overlapping it; for formula and cost files this is linearizable. Functions '
     'obtained earlier keep computing their own value after the file is overwritten.',
     ['histories', 'schedules'],
     'Every history of saves and loads over one or two paths, every interleaving of processes and threads at system '
     'call, compiler run and library load granularity.',
     TESTS + 'no test saves twice to one path in one process or overlaps two users of it.',
     [DH, FF], [m('replace by rename', UT + ':_replacing'), m('private library copy per load', FF + ':_load_func, _open_library'),
                m('relative library paths', FF + ':_load_func')],
     state=[{'name': 'libraries loaded by the process', 'meaning': 'keyed by path and inode in the dynamic loader', 'where': FF}],
     tech='deterministic simulation: seeded schedules of concurrent saves and loads, linearizability search against a register')

prop('C07', 'Sessions running at the same time do not affect each other',
     'When several processes or threads use the library at the same time on different files - saving and loading '
     'formulas, generating, saving, loading and evaluating cost and model functions, fitting, converting and loading '
     'data - each of them gets exactly the results and files it would get running alone, and fails only if it would '
     'fail alone. This holds under every interleaving, when they share the working directory and the temporary '
     'directory, when their sources of temporary names collide, and when another of them fails or is killed.',
     ['schedules', 'histories', 'configurations'],
     'Every set of 2-3 sessions with different files, every interleaving of threads at package-line and system-call '
     'granularity and of processes at system-call granularity, colliding entropy.',
     TESTS + 'there is no concurrent test.',
     [DH, FF, FG, UT], [m('temporary build directories', FF + ':_in_write_directory, _fixed_autowrap'), m('routine names', FF + ':_make_energy_func_chunked'),
                        m('no shared mutable module state', FF)],
     tech='deterministic simulation: seeded line- and syscall-level schedules of concurrent sessions compared with their solo runs')

prop('C08', 'Calls leave no temporary files, descriptors or other residue behind',
     'When any library call returns or raises, whatever failed underneath (other than the removal of its own '
     'temporary files), it has left no file or folder behind except '
     'the artifacts it was asked to write, no open file descriptor, the same working directory, and every unrelated '
     'file untouched. Generating functions without a save path leaves nothing at all on disk.',
     ['fault_sequences', 'inputs', 'histories'],
     'Every call, every single failing operation under it (except the clean-up operations themselves), errors, disk '
     'full, compiler failures, bad arguments; not for a killed process.',
     TESTS + 'no test looks at the temporary directory or at descriptors, least of all after a failure.',
     [FF, UT, DH, FG], [m('temporary build directories removed', FF + ':_in_write_directory'), m('staged file removed on failure', UT + ':_replacing'),
                        m('staged folder removed on failure', FF + ':_replacing_folder')],
     tech='deterministic simulation with fault injection; before/after snapshots of the whole file tree, descriptors and cwd')

prop('C09', 'A seeded fit is a function of its inputs, bit for bit',
     'A fit (least squares, or any basinhopping or dual annealing fit given its seed) returns the same x, fun, xdict '
     'and evaluation count, bit for bit, in any process and under any hash seed, clock, temporary names and working '
     'directory, after any history of other calls, concurrently with others, and whether its cost function (and '
     'gradients) are generated, generated and saved, or loaded from the saved files.',
     ['histories', 'schedules', 'configurations', 'fault_sequences'],
     'Every fit function, seed, formula and data; every history before it; every interleaving; short and interrupted '
     'I/O and clock jumps.',
     TESTS + 'each fit runs once in one process under one hash seed.',
     [FF], [m('parameter order', FF + ':_make_energy_expr'), m('seed passed through', FF + ':basinhopping_fit'), m('loaded cost function', FF + ':_load_energy_and_denergy_func')],
     tech='deterministic simulation: same seeded fit replayed across processes, hash seeds, histories and schedules, bitwise comparison')

prop('C10', 'Fit results respect bounds, parameter names and the cost they report',
     'Every fit result assigns each parameter in xdict the entry of x at its place in get_free_symbols() order, keeps '
     'bounded parameters inside their bounds, reports as fun the documented cost at x (for least squares, residuals '
     'equivalent to that cost), and is never worse than the initial guess for least squares, annealing and basinhopping '
     'without hops; extra guess entries are ignored, and a '
     'cost function loaded from file is the one being minimised. Under failing system calls or compilers a fit either '
     'raises or gives such a result.',
     ['inputs', 'histories', 'fault_sequences'],
     'Every fit function, formula, guess (in any order, with extra entries), bounds, seed and load/save option; every '
     'single failing operation.',
     TESTS + 'two formulas are fitted and compared with stored numbers.',
     [FF], [m('guess and bounds to vector', FF + ':basinhopping_fit_with_bounds'), m('xdict', FF + ':_parameter_mapping'),
            m('least squares residual', FF + ':least_squares_fit')],
     tech='deterministic simulation: seeded fits with histories and faults, results checked against an independent cost evaluator')

prop('C11', 'Loaded data is exactly what the files contain, or the load fails',
     'A data-loading call that returns holds exactly the rows of the given files: angles in the declared unit reduced '
     'modulo one turn and sorted, the first of duplicate angles kept, oblique-incidence keys made from '
     'normal-incidence ones when asked, dark data subtracted, minimum subtracted and scale applied when asked. A '
     'missing, unreadable or malformed file, or a read that fails part-way, makes the call raise and leaves later '
     'loads unaffected; short or interrupted reads change nothing.',
     ['inputs', 'fault_sequences', 'histories'],
     'Every set of files, dialect, unit, option, and every read or open operation failing.',
     TESTS + 'one clean data set is loaded; no test has a bad file or a failing read.',
     [DH], [m('CSV reading', DH + ':read_csv'), m('normalisation on construction', DH + ':DataContainer.__init__'), m('loading with dark subtraction', DH + ':load_data_and_dark_subtract')],
     tech='deterministic simulation with read faults; loaded data compared with an independent reading of the files')

prop('C12', 'Containers behave like values and every operation is all or nothing',
     'Every operation and conversion of the data and formula containers (construction, copy, scale, phase shift, '
     'filter, normalise, subtract, add, merge, substitute, convert between angle space and Fourier space, get) gives '
     'its documented mathematical result whatever was done before; containers, their copies, merges and the arrays '
     'they hand out share nothing that changes. A call that raises (bad argument, or a callback or arithmetic '
     'operation failing midway) leaves every container exactly as it was.',
     ['histories', 'inputs', 'fault_sequences'],
     'Every sequence of container operations over a pool of containers, every argument, every failing callback.',
     TESTS + 'each method is called once or twice on one container, never after a failure.',
     [DH, FT], [m('methods rebuild the dictionary', DH + ':DataContainer'), m('copies', DH + ':fFormContainer.copy'), m('Fourier transform', FT + ':_fourier_transform')],
     state=[{'name': 'scale, phase shift, offset', 'meaning': 'what was done to the data since it was read', 'where': DH + ':DataContainer'}],
     tech='deterministic simulation: random operation histories with failing callbacks against a reference container model')

prop('C13', 'Calls do not change their arguments or process-wide state',
     'No library call, whether it returns or raises, changes the containers, arrays, lists, dictionaries or symbols the '
     'caller passed in, nor the process-wide state others rely on: working directory, environment, random generators '
     '(when the call is given a seed or uses no randomness), signal handlers, warning filters, numpy error state, '
     'umask, recursion limit, module search path or the standard streams.',
     ['inputs', 'histories', 'fault_sequences'],
     'Every call with arguments of every documented type, after any history, with any single operation under it failing.',
     TESTS + 'no test looks at its inputs again after the call.',
     [DH, FF, FO, FG, UT], [m('copies of inputs', DH + ':fFormContainer._copy_iterable'), m('keyword dictionaries copied', FF + ':basinhopping_fit'),
                            m('working directory restored', FF + ':_fixed_autowrap')],
     tech='deterministic simulation with fault injection; fingerprints of arguments and process state around every step')

prop('C14', 'An uncontracted Fourier transform set is used whole or refused',
     'A formula contracted from a saved set of uncontracted Fourier transforms (numeric or symbolic angle of incidence) '
     'holds, for the given real or complex tensors, exactly the Fourier components -M..M of the intensity, as computed '
     'from the set of one complete generation: the previous or the new one. If a generation failed, was interrupted or '
     'killed half-way, a file of the set is missing or torn, the set has fewer frequencies than asked for, or a tensor '
     'has parameters not known to be real, contraction raises an error. A failed or killed contraction leaves the '
     'formula saved before, or the new one.',
     ['crash_points', 'fault_sequences', 'histories', 'inputs'],
     'Every operation of a generation or contraction as the place of a failure or kill over an earlier set; every '
     'missing or truncated file; every number of frequencies; real and complex tensors.',
     TESTS + 'generation and contraction run once on a quiet file system, and nothing looks at the values.',
     [FG, UT], [m('old set forgotten first', FG + ':_forget_uncontracted'), m('generation', FG + ':generate_uncontracted_fourier_transforms, generate_uncontracted_fourier_transforms_symb'), m('contraction', FG + ':generate_contracted_fourier_transforms'), m('formula replaced whole', FG + ':_save_fform_dict')],
     tech='deterministic simulation with crash and I/O fault injection; contraction compared with an independent numerical evaluation')

prop('C15', 'Work goes through once faults stop',
     'After any failure, interruption or kill of a library call, repeating the call once nothing fails any more '
     'succeeds and gives the right result - at once, in the same process or a new one, and whatever files, folders or '
     'colliding temporary names the earlier attempt left. Nothing needs to be cleaned up by hand.',
     ['fault_sequences', 'crash_points', 'histories'],
     'Every sequence of faulted attempts followed by one clean attempt, in the same process or a restarted one with '
     'the same or other temporary names.',
     TESTS + 'no test retries after a failure.',
     [DH, FF, FG, UT], [m('left-over staging files', UT + ':_replacing'), m('left-over folders', FF + ':_replacing_folder'), m('library names', FF + ':_open_library')],
     tech='deterministic simulation: faulted attempts then a fault-free retry, bounded-step progress and reference results')

prop('C16', 'Generated formulas do not depend on process, hash seed or history',
     'Generating formulas (from tensors in angle space, by Fourier transforming, by particularizing, '
     'making complex or real, merging) gives mathematically the same formula with the same free symbols in every '
     'process, under every hash seed and after every history of other calls, and agrees with a direct numerical '
     'evaluation of the tensors.',
     ['histories', 'configurations', 'inputs'],
     'Every tensor and option, every hash seed, every history of other generations, concurrent threads.',
     TESTS + 'formulas are compared with stored files in one process.',
     [FO, FG, UT, DH], [m('formula generation', FO + ':formgen'), m('Fourier transform', DH + ':form_to_fform'), m('particularize', UT + ':particularize')],
     tech='deterministic simulation: generations replayed across hash seeds, processes, histories and schedules against a numerical reference')

NA = []


def na(id, title, statement, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, over=['inputs'], qtext='Every input.',
                  why='A handful of inputs is sampled.', files=files, mech=mech, state=None, tech=None, note=None,
                  observe=None, na=reason))


PURE = ('a pure function of its arguments: no schedule, clock, I/O, fault or history in it for a simulator to decide '
        '(what other properties need of it is checked there)')
na('C17', 'Rotation matrices are proper rotations with the documented sense',
   'Every rotation matrix built from an axis and an angle, or from two vectors, is orthogonal with determinant one, '
   'fixes its axis, and takes the first vector to the second.', [UT], [m('rotation', UT + ':rotation_matrix3')], PURE)
na('C18', 'Tensor products, contractions and transformations follow index notation',
   'Tensor product, contraction over index pairs and transformation by an operation equal the sums written in index '
   'notation, and transforming by a rotation and its inverse gives back the tensor.', [UT],
   [m('einsum', UT + ':tensor_contract, transform')], PURE)
na('C19', 'Tabulated tensors are invariant under their point groups',
   'Every tensor listed for a point group is unchanged by every operation of the group, and has the maximal number of '
   'independent parameters.', ['shgpy/tensor_definitions.py'], [m('tables', 'shgpy/tensor_definitions.py')],
   'constants in a table: nothing executes, so there is nothing to simulate')
na('C20', 'Plots show the data they are given',
   'The plotting helpers draw each polarization combination of each data set at its own angles and values.',
   ['shgpy/plotter.py'], [m('easy_plot', 'shgpy/plotter.py:easy_plot')],
   PURE + '; the output is a picture in an interactive window')


def main():
    have = {f[:-3] for f in os.listdir(os.path.join(V, 'props')) if f.startswith('C') and f.endswith('.py')}
    with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
        for p in P:
            a = {'files': p['files'], 'mechanism': p['mech']}
            if p['state']:
                a['state'] = p['state']
            fh.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                 'quantifier': {'over': p['over'], 'text': p['qtext']},
                                 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
            assert len(p['title']) <= 80, p['id']
    checks, nas = [], []
    for p in P:
        if p['id'] in have:
            checks.append({'property': p['id'], 'quick_cmd': './check.py %s --tier quick' % p['id'],
                           'thorough_cmd': './check.py %s --tier thorough' % p['id'],
                           'evidence_file': 'evidence/%s.json' % p['id'],
                           'technique': p['tech'], 'level': 'exploration',
                           'level_note': 'Seeded search over workloads, schedules and fault placements; every run is '
                           'repeatable from its seed and every violation comes with a minimised, re-run replay file. '
                           'A clean run is evidence over what was sampled, not proof.'})
        else:
            nas.append({'property': p['id'], 'reason': p.get('na') or 'check not built yet'})
    man = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': nas,
           'notes': 'No hooks in /repo: clocks, entropy, file system calls, locks, the compiler and the dynamic loader '
                    'are intercepted below Python by an LD_PRELOAD shim and a compiler front on PATH. See DESIGN.md.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as fh:
        json.dump(man, fh, indent=1)
        fh.write('\n')


main()
