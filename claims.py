R = ' Doubles are treated as exact reals. '
c('C01', T+'Obara-Saika postconditions, exact ring normaliser', 'proof', 'For every generated quartet routine, each stored value is proved equal, as an identity in all real inputs, to the sum over its primitives of the specified integrals.'+R+'Loop counts are those of fixed batch shapes that exercise every loop; arbitrary shapes are the subject of C03. Trusted: Obara-Saika relations as definition of the integrals, contract of the Boys function.')
c('C02', T+'derivative postconditions, exact ring normaliser', 'proof', 'As C01 for the first derivatives: each of the twelve values is proved equal to 2a(raised) - n(lowered) summed over primitives, or the negative sum of the other three centres.'+R)
c('C03', T+'batch-shape contracts, exact ring normaliser', 'proof', 'Real contents are unrestricted; loop counts are those of the batch shapes listed in the evidence (bounded in shape, labelled so), chosen to hit every lane boundary, batch padding, clipping and multi-batch case, plus seeded random shapes.'+R)
c('C04', T+'path conditions over symbolic tolerance and screening values, z3', 'proof', 'On each explored path the primitives missing from the output are read off its polynomials and z3 proves that the path condition puts their estimate below the tolerance; the remainder is proved equal to the sum of what is left. Bounded in batch shape and, for larger shapes, in the number of paths.'+R)
c('C05', T+'bounds, frame, alignment, lifetime and initialisation obligations', 'proof', 'Every memory access, integer operation and allocation of the executions of C01/C02 is an obligation, with the work array exactly as large as the library reports. Bounded in batch shape.')
c('C08', T+'postcondition of every field, exact ring normaliser', 'proof', 'Every field of the constructed shell pair is proved equal to its specified term in the real contents of the shells, for the shapes listed in the evidence.'+R)
c('C09', T+'postcondition relating the combined object to its parts', 'proof', 'As C08, for simint_cat_shellpairs and simint_cat_multi_shellpair on any partition listed in the evidence.'+R)
c('C10', T+'postcondition on the estimates, integral routine replaced by its contract', 'proof', 'The estimates are proved to be the largest diagonal integral (integral call replaced by its contract of C01/C03/C05), resp. the documented closed form.'+R)
c('C11', T+'whole-history contracts: bounds, lifetime, leak and content obligations', 'proof', 'Histories of public calls run against a model of the objects: every access in bounds, every object freed once, contents as the model says. Histories and sizes are those listed in the evidence (bounded); real contents are unrestricted.'+R)
c('C12', T+'postcondition on the coefficients plus a lemma, exact ring normaliser', 'proof', 'Every normalised coefficient is proved equal to w_i/sqrt(F sum w_i w_j q_ij); a lemma turns that into unit self-overlap. Primitive counts bounded as listed.'+R)
c('C18', T+'permutation and order postconditions, case split over all weak orderings', 'proof', 'All weak orderings of up to four (thorough: five) estimates are enumerated, larger batches are sampled; on each path all arrays are proved to be permuted alike.'+R)
c('C06', T+'closed-form postconditions, Obara-Saika relations as lemmas, exact ring normaliser', 'proof', 'Every one-dimensional term is proved equal to its closed form through relations that are themselves proved as lemmas; every output value is proved equal to the sum over primitives of their products. Angular momenta and primitive counts as listed in the evidence.'+R)
c('C07', T+'Obara-Saika postconditions, exact ring normaliser', 'proof', 'Every intermediate and output value is proved equal to its specified attraction integral. Angular momenta, primitive and charge counts as listed in the evidence.'+R)
c('C16', T+'reachable states of the dispatch tables, entry points against recording contracts, z3', 'proof', 'Initialise and finalise contain no input: the contents of all globals reachable by any sequence of them are enumerated to a fixed point; in each, every combination (up to angular momentum 7, both orders) goes through every entry point with symbolic arguments and tolerance. File lists are checked for closure by the text of the generated files.')
c('C15', T+'one obligation per table entry', 'proof', 'Every entry of both copies of the tables is compared with the position computed from the documented order; no bound, no assumption.')
c('C14', T+'lane-by-lane postconditions of every operation, exact ring normaliser and z3', 'proof', 'For every vector width (scalar, SSE, AVX, AVX2, AVX-512, Arm ASIMD and SVE of every length) and for both compilers\' text each lane is proved equal to the scalar operation for all lane values. Contraction: component counts and destination patterns as listed (bounded).'+R)
c('C13', T+'error contract of boys_F_split: every stored value is proved to be a table polynomial, an asymptotic term or a step of an exact recursion; the error of each is bounded over all arguments that reach it', 'proof', 'Every path of boys_F_split is executed on the real code with symbolic arguments for every order up to 29 and every vector width; table reads are proved in bounds (z3), lanes proved independent, and the deviation of every value from the Boys function bounded by 1e-12 over the whole argument range (Taylor remainder and table values cell by cell in 60-digit arithmetic). Rounding is only sampled (bounded); for four and more lanes not all combinations of argument classes are enumerated for every order (bounded).'+R)
c('C17', 'contract-based deductive verification of the compiled Fortran module against the C declarations: layout, interface and per-procedure postconditions', 'proof', 'Member layout (DWARF of both compilers), interfaces (module file against the C declarations) and the meaning of every module procedure (optimised GIMPLE: which C function is called, with which values, what is returned) are each an obligation; no bound. Trusted: gfortran\'s own description of what it compiled. Replay runs one scenario through both interfaces.')
NA = {}
