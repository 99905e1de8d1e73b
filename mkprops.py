#!/usr/bin/env python3
"""writes properties.jsonl (kept as a script so that the statements stay readable)"""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))
G = 'generator/ostei/'
p('C01', 'Two-electron integrals equal the sum over their primitives',
  'For every supported quartet of angular momenta, the block returned for two batches of shell pairs holds, for each shell quartet and each combination of Cartesian components in the documented order, the sum over all primitive combinations of (bra prefactor x ket prefactor x the primitive Gaussian repulsion integral). This holds whatever the exponents, centres and coefficients are, for canonical and permuted orders of the angular momenta, and for every generator option set and vector width.',
  ['inputs', 'configurations', 'programs'], 'all shell pair contents (centres, exponents, prefactors); all quartet classes the library was generated for; generator option sets (inline, external and general recurrences, stack use) and vector widths 1, 2, 4, 8',
  'The tests compare a few molecules and basis sets with stored references for three builds; a wrong recurrence term, index or component order that vanishes for those geometries, or an option set or width that is not built, is never seen.',
  [G+'OSTEI_Writer.cpp', G+'OSTEI_VRR_Writer.cpp', G+'OSTEI_HRR_Writer.cpp', G+'OSTEI_VRR_Algorithm_Base.cpp', 'skel/simint/ostei/ostei_general_vrr.c', 'skel/simint/ostei/ostei_general_hrr.c', 'skel/ostei_s_s_s_s.c', 'create.py'],
  [('vertical recurrence (generated, external or general)', G+'OSTEI_VRR_Writer.cpp'), ('horizontal recurrence', G+'OSTEI_HRR_Writer.cpp'), ('contraction of vector lanes into shell quartets', 'skel/simint/vectorization/*.h'), ('permutation wrappers', G+'OSTEI_Writer.cpp:Write_Permute_')],
  observe=['output array of the integral call'])
p('C02', 'Two-electron first derivatives equal the derivative of the integral',
  'For every supported quartet, the derivative call returns for each integral twelve consecutive values: the derivatives of that integral with respect to the x, y and z coordinates of the first, second, third and fourth centre, in that order. They obey translational invariance and hold for all exponents, centres and coefficients, permuted angular momenta, generator option sets and vector widths.',
  ['inputs', 'configurations', 'programs'], 'all shell pair contents; all quartet classes of the first-derivative code; option sets and vector widths',
  'The derivative tests sample two molecules with references for a few classes; an error in one centre, direction or exponent weight can cancel or be absent there.',
  [G+'OSTEIDeriv1_Writer.cpp', G+'OSTEI_HRR_Writer.cpp', G+'OSTEI_VRR_Writer.cpp', 'skel/simint/vectorization/*.h'],
  [('exponent-weighted contraction', G+'OSTEIDeriv1_Writer.cpp'), ('fourth centre from translational invariance', G+'OSTEIDeriv1_Writer.cpp')], observe=['output array of the derivative call'])
p('C03', 'Every primitive quartet is counted once for any batch shape',
  'Whatever the number of shell pairs on either side, their numbers of primitive pairs, the padding between batches and the number of pairs actually requested, each primitive combination of each requested shell quartet contributes exactly once and to exactly that quartet, padding and unrequested pairs contribute nothing, and the call returns the number of quartets computed. The order of shell pairs within a batch does not matter.',
  ['inputs', 'configurations'], 'all shell pair counts, all sequences of primitive counts, all requested counts not above the stored ones, all vector widths',
  'Tests use a handful of fixed batch shapes; lane boundaries, batch padding, clipping and more than one batch interact in ways that no fixed molecule enumerates.',
  [G+'OSTEI_Writer.cpp', G+'OSTEIDeriv1_Writer.cpp', 'skel/ostei_s_s_s_s.c', 'skel/simint/vectorization/vectorization.h'],
  [('batch loops, shell offsets and lane masking', G+'OSTEI_Writer.cpp:WriteShellOffsets,Write_Full_')], observe=['output array', 'return value'])
p('C04', 'Screening drops only what the tolerance allows',
  'With a positive tolerance, an integral call may leave out a primitive combination only when the product of its bra and ket screening estimates is below the square of the tolerance, may skip the whole call (returning -1 and writing nothing) only when the product of the two maxima is, and everything else is as without screening. With tolerance zero nothing is dropped and no screening data is needed.',
  ['inputs'], 'all tolerances, all screening values, all batch shapes',
  'The tests only check that one tolerance gives small overall errors on one molecule; they cannot see one wrongly skipped lane or a destination that moves after a skipped vector.',
  [G+'OSTEI_Writer.cpp', G+'OSTEIDeriv1_Writer.cpp', 'skel/simint/ostei/ostei.c', 'skel/ostei_s_s_s_s.c', 'skel/simint/vectorization/*.h'],
  [('bra skip, vector skip, early return', G+'OSTEI_Writer.cpp:Write_Full_')], observe=['output array', 'return value'])
p('C05', 'Integral calls stay inside the documented memory',
  'An integral or derivative call given an output array of exactly the documented size and a work array of exactly the size the library reports for that derivative order and angular momentum never reads or writes outside them, never reads uninitialised data, never modifies its shell pairs, respects all alignment requirements and releases everything it allocates. The reported size suffices for every quartet up to that angular momentum.',
  ['inputs', 'configurations'], 'all batch shapes and values; every quartet class; option sets and vector widths',
  'Tests allocate generously and do not look at memory; an overrun by one vector or a modified input is invisible to them.',
  ['skel/simint/ostei/ostei_config.h.in', 'skel/simint/ostei/ostei.h', 'skel/simint/vectorization/*.h', G+'OSTEI_Writer.cpp', 'skel/ostei_s_s_s_s.c'],
  [('work size table', 'skel/simint/ostei/ostei_config.h.in'), ('workspace partitioning', G+'OSTEI_Writer.cpp:PartitionWorkspace')], observe=['memory'])
p('C06', 'Overlap and kinetic energy integrals are exact sums over primitives',
  'For every pair of shells, the overlap and kinetic energy calls return, for each pair of Cartesian components in the documented order, the sum over primitive pairs of the products of coefficients and the analytic one-dimensional overlap or kinetic energy integrals. The call overwrites exactly that many values, changes nothing else, and gives the same result for a shell paired with itself.',
  ['inputs'], 'all exponents, centres, coefficients, primitive counts and angular momenta',
  'The one-electron tests only check that the calls run.', ['skel/simint/osoei/osoei_overlap.c', 'skel/simint/osoei/osoei_ke.c', 'skel/simint/osoei/osoei_terms.c', 'skel/simint/simint_oneelectron.c'],
  [('one-dimensional recurrences', 'skel/simint/osoei/osoei_terms.c')], observe=['output array'])
p('C07', 'Nuclear attraction integrals are exact sums over nuclei and primitives',
  'For every pair of shells and every set of point charges, the potential call returns for each pair of Cartesian components the sum over charges and primitive pairs of the analytic attraction integral with the charge as given. Nothing depends on the order of the charges, and the call stays within its own memory.',
  ['inputs'], 'all charges and positions, exponents, centres, coefficients, primitive counts and angular momenta',
  'The one-electron tests only check that the calls run.', ['skel/simint/osoei/osoei_potential.c', 'skel/simint/simint_oneelectron.c'],
  [('auxiliary integral recurrences', 'skel/simint/osoei/osoei_potential.c')], observe=['output array'])
p('C08', 'Shell pair data follows from the Gaussian product theorem',
  'Building shell pair data from shells records, for every pair and every combination of their primitives, the product exponent, centre, centre differences, prefactor including both coefficients, and the doubled exponents. Pairs keep their order, padding elements carry a zero prefactor and finite data, and when a shell is paired with itself each unordered primitive combination is stored once with the weight of both orders.',
  ['inputs', 'configurations'], 'all shells, primitive counts, numbers of pairs and vector widths',
  'Tests only see the final integrals of a few molecules, mostly with one primitive layout.',
  ['skel/simint/shell/shell.c', 'skel/simint/shell/shell.h'], [('fill and padding loops', 'skel/simint/shell/shell.c:simint_fill_multi_shellpair2')], observe=['shell pair arrays'])
p('C09', 'Combining shell pairs is concatenation',
  'Combining existing shell pair batches into a new one gives the same data as building one batch from all of their pairs in order, whatever the batch sizes, and leaves the inputs unchanged. Counts, padding and screening data are those of the combined batch, also when the destination was used before.',
  ['inputs', 'histories'], 'all numbers of input batches, pairs per batch, primitives per pair; fresh and reused destinations',
  'No test combines batches of more than one pair.', ['skel/simint/shell/shell.c'],
  [('simint_cat_multi_shellpair, simint_cat_shellpairs', 'skel/simint/shell/shell.c')], observe=['shell pair arrays'])
p('C10', 'Screening estimates bound the integrals they stand for',
  'The screening value of each primitive pair is the largest diagonal repulsion integral over its Cartesian components (or, in the fast variant, its documented simplification), the recorded maximum of a batch is not below any of its values, and padding never raises a value above that of a real pair. Each stored combination of a shell paired with itself gets the estimate of that single combination. Nothing is written outside the output given..',
  ['inputs'], 'all shells and angular momenta, both screening methods',
  'The screening test only prints statistics.', ['skel/simint/shell/shell_screen.c', 'skel/simint/shell/shell.c'],
  [('per-primitive estimates', 'skel/simint/shell/shell_screen.c')], observe=['screening arrays and maxima'])
p('C11', 'Shell and shell pair objects can be created, copied, reused and freed safely',
  'For any sequence of initialise, create, allocate, copy, fill and free calls that starts with initialise, no call reads or writes outside the memory of the objects involved, nothing is leaked or freed twice, a copy equals its source and is independent of it, and reusing an object for smaller or larger contents behaves as a fresh one.',
  ['histories', 'inputs'], 'all call sequences; all sizes',
  'Tests create each object once, with one size, and never check memory.', ['skel/simint/shell/shell.c', 'skel/simint/shell/shell.h'],
  [('grow-only allocation', 'skel/simint/shell/shell.c:simint_allocate_shell, simint_allocate_multi_shellpair_base')], observe=['memory', 'object contents'])
p('C12', 'Normalisation gives unit self-overlap',
  'After normalising, the contracted function x^l of each shell has self-overlap one, for every number of primitives, every set of positive exponents and coefficients and every supported angular momentum. Exponents, centres and other shells are untouched.',
  ['inputs'], 'all shells', 'Tests normalise a few basis sets and look only at the integrals.',
  ['skel/simint/shell/shell.c', 'skel/simint/shell/shell_constants.c'], [('normalisation constants', 'skel/simint/shell/shell_constants.c')], observe=['shell coefficients'])
p('C13', 'Boys function values are accurate everywhere',
  'For every order used and every non-negative finite argument, all evaluation paths (table and Taylor expansion, long range, recursions, vector and per-lane) agree with the Boys function to a relative error of 1e-12 (exact arithmetic; orders up to 29, which the largest angular momentum with first derivatives needs; values that underflow excepted), including at and next to the switch between paths. No table entry outside the table is read. The mix of arguments in the lanes of a vector does not change any lane.',
  ['inputs'], 'all non-negative arguments, all orders up to the maximum', 'Argument values met by the molecules in the tests only sample the range.',
  ['skel/simint/boys/*.h', 'skel/simint/boys/boys_shortgrid.c'], [('short-range grid and Taylor expansion', 'skel/simint/boys/boys_taylor.h'), ('long-range formula', 'skel/simint/boys/boys_long.h')], observe=['function values'])
p('C14', 'Vector operations act lane by lane',
  'In every supported vector width, the arithmetic, masked load, minimum, maximum, contraction and weighted contraction operations give what applying the scalar operation to each lane would give: masked lanes read as zero, contraction adds each lane to its own destination only, and minimum and maximum consider every lane.',
  ['inputs', 'configurations'], 'all lane values, offsets, lane counts and component counts; every vector width', 'Only one width is built per test configuration and the operations are never tested alone.',
  ['skel/simint/vectorization/*.h'], [('intrinsics wrappers', 'skel/simint/vectorization/intrinsics_*.h')], observe=['results of the operations'])
p('C15', 'Component index tables agree with the documented order',
  'The tables that describe Cartesian components list, for every angular momentum, exactly all components in the documented order, and every link from a component to its neighbours in some direction leads to the component with that exponent changed by one. The offsets of each angular momentum into the tables are consistent with the number of components.',
  ['configurations'], 'all table entries', 'A wrong link is only seen if a sampled class uses it with non-vanishing weight.',
  ['skel/simint/recur_lookup.c', 'skel/simint/recur_lookup.h', 'skel/simint/ostei/recur_lookup.c'], [('recurrence tables', 'skel/simint/recur_lookup.c')], observe=['table contents'])
p('C16', 'Dispatch reaches the right routine for every class and stays put',
  'After initialisation, every supported combination of derivative order and four angular momenta reaches a routine for exactly that combination, the public entry points pass their arguments on unchanged, and initialising again or finalising in between changes nothing. No supported combination is left without a routine.',
  ['configurations', 'histories'], 'all combinations of angular momenta and derivative order in every generated tree; all sequences of initialise and finalise', 'Tests call the classes their basis sets contain.',
  ['skel/simint/ostei/ostei_init.c', 'skel/simint/ostei/ostei_deriv1_init.c', 'skel/simint/ostei/ostei.c', 'skel/simint/simint_init.c', 'skel/simint/simint_eri.c', 'create.py'], [('function tables', 'skel/simint/ostei/ostei_init.c')], observe=['dispatch table'])
p('C17', 'The Fortran interface matches the C structures and functions',
  'Every derived type of the Fortran module has the same members, in the same order with interoperable types, as the C structure it stands for, and every interface passes its arguments in the way the C function expects. A structure filled by one side is read correctly by the other.',
  ['programs'], 'all members and all interfaces', 'No test calls the library from Fortran.',
  ['skel/simint/simint.f90', 'skel/simint/shell/shell.h', 'skel/simint/simint_eri.h', 'skel/simint/simint_oneelectron.h'], [('bind(C) interfaces', 'skel/simint/simint.f90')], observe=['argument passing'])
p('C18', 'Sorting shell pairs keeps the data of every pair together',
  'Sorting the primitives of shell pairs by screening value only reorders the primitives within each pair: all arrays are permuted alike, no primitive is lost or duplicated, padding stays in place, and the values are in descending order afterwards.',
  ['inputs'], 'all batch shapes and all screening values, including ties', 'Nothing in the tests inspects the order or completeness.',
  ['skel/simint/shell/shell.c'], [('sort', 'skel/simint/shell/shell.c:simint_sort_multi_shellpair, quicksort')], observe=['shell pair arrays'])
with open('properties.jsonl', 'w') as f:
    for q in P: f.write(json.dumps(q) + '\n')
