"""What check.py runs for each property.

part: one harness (a driver whose choice tree is enumerated exhaustively)
      name, src (default name), san: 'san' AddressSanitizer, 'ub' both sanitizers, '' none; tiers; env
"""
import subprocess


def _lib(name):
    return subprocess.run(['gcc', '-print-file-name=' + name], stdout=subprocess.PIPE, text=True).stdout.strip()


ASAN_PY = {'LD_PRELOAD': _lib('libasan.so') + ' ' + _lib('libstdc++.so'), 'PYTHONMALLOC': 'malloc',
           'ASAN_OPTIONS': 'detect_leaks=0:exitcode=99:allocator_may_return_null=1:malloc_context_size=3:quarantine_size_mb=64'}
SPECS = {
    'C01': dict(parts=[dict(name='c01', san='san'),
                       dict(name='c01deep', src='c01', san='', env={'MC_DEPTH': '4'}, tiers=['thorough'])],
                bound='9 starting histories x every sequence of 3 (thorough: 4) out of 28 operations x 3 orders of final requests (every order after every sequence of 3 in the thorough tier, one of them otherwise)',
                assumptions=['the reference answer is the stacking of the registered factors\' own residuals and Jacobians (C07, C08 judge those)'],
                budget=600),
    'C02': dict(parts=[dict(name='c02', san='')],
                bound='0-3 variables x sizes 1-3 (thorough also 4 and 6) x constness x identifier assignments (negative, extreme, shared with factors) x 0-3 factors x what each uses x 6 oddities x registration orders, twice finalized'),
    'C03': dict(parts=[dict(name='c03', san='')],
                bound='256 factor subsets x 16 constant masks (incl. repeated variables, vanishing entries, empty factors) x every order of 3 evaluation requests x states; 7 real problems x all constant masks x every order of 3 (thorough 4) requests x re-finalizations; every factor of the catalogue x constant masks',
                assumptions=['the reference is the stacking of the factors\' own blocks (C07, C08 judge those)']),
    'C04': dict(parts=[dict(name='c04', san='')],
                bound='all 512 triples of 8 variable types (one refusing values) x constant masks x every sequence of 3 (thorough: 4 for type-ordered triples) of 15 operations; graphs of up to 257 (thorough 4000) variables'),
    'C05': dict(parts=[dict(name='c05', san='')],
                bound='7 problems x which variables are constant (each alone, all but each, all, alternate) x every sequence of 3 (thorough: 4) of 14 operations incl. rejected, failing, faulting and diverging optimizations'),
    'C06': dict(parts=[dict(name='c06', san='')],
                bound='3 identifier domains x 3 starts x every sequence of 4 (thorough: 6) registrations of 4 variables and 4 factors over 2 identifiers, nulls, finalizations and evaluations'),
    'C16': dict(parts=[dict(name='c16', san='')],
                bound='7 problems x 4 identifier assignments x each variable additionally constant x all orders of up to 4 (thorough 6) objects, rotations, reversals, interleavings and exchanges of more, both methods; 3 (thorough 4) separate unknowns with every assignment of 4 (5) information values between 1e-17 and 3e15 x all orders x methods x 3 settings',
                assumptions=['equality up to 1e-6; the iteration count may differ by 2 since the last ones are decided by rounding']),
    'C18': dict(parts=[dict(name='c18', san='')],
                bound='every factor type x every differentiable state of the catalogue x constant masks x 13 faults planted in every block (thorough: every entry; quick: every row and column) x positions x errors raised at each call',
                assumptions=['a wrong entry is off by at least 0.1 + 2 % at a tolerance of 1e-3']),
    'C07': dict(parts=[dict(name='c07', san='san')],
                bound='every factor type x every state of the catalogue (rotations incl. 0, tiny, pi/2, near pi; on/near/off/behind/coincident geometry) x every constant mask x 4 container contents x earlier calls; rotation errors of every size from 1e-4 to 2.6 rad, a third (sixth) of a decade apart',
                assumptions=['derivatives are compared with 4th-order central differences of the residual to 1e-7 relative']),
    'C08': dict(parts=[dict(name='c08', san='san')],
                bound='every factor type x every option x every state of the catalogue x 3 ways of moving there x 3 ways of requesting x constness'),
    'C09': dict(parts=[dict(name='c09', san='')],
                bound='every sequence of 4 (thorough: 5) operations out of each variable type\'s alphabet of setters, increments (zero, tiny, near pi, beyond pi and beyond whole turns, limit crossing, wrong size), values a few units in the last place away, clones'),
    'C10': dict(parts=[dict(name='c10', san='ub')],
                bound='all sign/coordinate patterns of axes x angles dense at 0, every branch threshold and pi, |w| up to 1e6',
                assumptions=['the logarithm may lose digits towards pi: 1e-9 below angle 3, 1e-7 beyond']),
    'C11': dict(parts=[dict(name='c11', san='')],
                bound='every sequence of answers (accept, reject, singular, indefinite, NaN, overflow, error ...) of a scripted environment to 2 (thorough: 3) Levenberg-Marquardt iterations with at most 2 exotic ones x settings, against a reference automaton of the damping rule'),
    'C12': dict(parts=[dict(name='c12', san='')],
                bound='every sequence of answers of a scripted environment to 2-3 iterations of either method x settings, against a reference automaton of status and statistics'),
    'C13': dict(parts=[dict(name='c13', san='')],
                bound='all 128 subsets of 7 linear factors x 16 constant masks x dimensions 1-2 (thorough 1-3) x sigma sets x starts x 5 settings',
                assumptions=['optimum up to the configured tolerances and the smallest cost difference doubles can represent']),
    'C14': dict(parts=[dict(name='c14', san='')],
                bound='4 starts x every sequence of 4 (thorough: 5) of 14 operations on one optimizer over two graphs; problems x rescaled measurements x every mask of constants x methods'),
    'C15': dict(parts=[dict(name='c15', san='')],
                bound='3 starts x every sequence of 3 (thorough: 4) of 14 operations on one optimizer over two graphs, then one of 5 settings on either graph against a fresh optimizer and graph'),
    'C17': dict(parts=[dict(name='c17', san='')],
                bound='7 problems x 2 methods x 2 settings x 2 starts x an error of each of 4 kinds at every single factor evaluation of the run (thorough: also pairs)'),
    'C19': dict(parts=[dict(name='c19', san='ub')],
                bound='residual dimensions 1-4 x lattice of components around the threshold x thresholds x block lists with and without empty blocks'),
    'C20': dict(parts=[dict(name='c20', san='')],
                bound='every sequence of operations, clock advances and wall-clock jumps up to the depth bound under interposed clocks'),
    'C21': dict(parts=[dict(name='c21', kind='python', san='ref')],
                bound='every bound class x every split into positional and (ordered or reversed) keyword arguments x every number of optional arguments x 2-3 values x 5 array kinds x every sequence of 3 (thorough 4) variable operations; every factor x constant masks in a graph; every setting/statistic written and read back in sequences of 2 (3) over 4 ways of reaching it; every enumerator; 3 problems x every sequence of 3 (thorough 4) of 22 graph and optimizer operations, all in lock step with the C++ library',
                assumptions=['the reference is the same C++ source called directly; parameters are identified by their C++ names'], budget=600),
    'C22': dict(parts=[dict(name='c22', kind='python', san='asan', env=ASAN_PY)],
                bound='19 factor constructors x 4 ways of keeping things x every order of dropping the references; everything handed out by every attribute of every object without arguments x changing and dropping the owner; 8 scenes x every order of dropping; every history of up to 3 (thorough 4) operations and drops from 3 starts; None in place of every required object; calls on unready objects in pairs; under AddressSanitizer with the system allocator',
                assumptions=['a read of freed memory is one AddressSanitizer can see (quarantine 64 MB)'], budget=600),
    'C23': dict(parts=[dict(name='c23', kind='python', san='py')],
                bound='every subset of 11 atoms (3D/2D poses, landmarks, bearing, range-bearing and between factors) x 11 extras (hidden kinds, constants, singular systems, estimates that are exactly zero) x optimizer states x every combination of the four switches x new or given axis (quick: one of the two axes per combination, extras with 5 sets of atoms; thorough: measurement and between switches equal with extras), drawn with matplotlib\'s off-screen backend and read back',
                assumptions=['the plot supports poses, 2D poses, landmarks and size-2 generic variables; the 3D view has ellipsoids for 3D poses and landmarks only'], budget=780),
    'C24': dict(parts=[dict(name='c24', san='')],
                bound='10 worlds covering every factor type x 4 placements (one 200 km away) x 2 sigma sets x held variables (every subset of up to 5, thorough 9; else none, each, pairs, all but each) x displaced variable or all x 10 directions x 4 (thorough 5) sizes x 6 settings',
                assumptions=['starts lie within 0.25 of the truth in every coordinate, where Gauss-Newton converges on every world; plane problems, whose four parameters are redundant, are for Levenberg-Marquardt only']),
    'C25': dict(parts=[dict(name='c25', san=''), dict(name='c25py', src='c25', kind='python', san='py')],
                bound='7 problems x every sequence of 3 (thorough 4) of 18 operations, including failing and refused ones x own references dropped early or late x graph or optimizer released last; each history three times, its last operation repeated 7 times, with every allocation counted; in Python 3 scenes x every sequence of 3 (thorough 4) of 9 operations x 5 orders of dropping, with weak references to everything and the heap compared over repetitions'),
    'C26': dict(parts=[dict(name='c26', san='mt')],
                technique='stateless model checking of the real code: every load and store is instrumented, accesses of two threads to shared written memory are found by dynamic partial-order reduction, and every schedule of them up to two preemptions is executed under a controlled scheduler',
                bound='every ordered pair of 88 thread programs (each factor type in 3 states, 7 problems evaluated, changed, diagnosed and optimized by both methods, rotation tools, kernel, every variable type); memory the two both touch and one writes: every placement of up to two preemptions among up to 300 x 20 (thorough 2000 x 60) accesses, results compared bit for bit with running alone',
                assumptions=['pairs whose threads share no written memory are independent, so one schedule represents all', 'sequentially consistent memory; initialisation of function-local statics is atomic', 'thread programs print nothing: std::cout is shared by intent']),
}
