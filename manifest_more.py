c("C06", "exploration", "exhaustive enumeration of single alterations of everything sent, over recorded transcript histories of the real prover and verifier",
  "Every Fiat-Shamir event of both sides is logged through a replaced merlin; each absorbed item is altered alone (and each message recorded before/after its challenge) for every statement of the catalogue and every whole-protocol history.")
c("C10", "exploration", "bounded exhaustive enumeration of tree shapes and contents on the real builder against a reference hash tree",
  "All (branching factor, number of trees, number of elements, height) within bounds, all element lists over a small alphabet; reference recomputation of every node and every path.")
c("C11", "exploration", "bounded exhaustive enumeration of tree shapes, heights and indices through the real prover and verifier",
  "Every (branching factor, number of elements, height, index) within bounds is proven and verified, against the full tree and against a tree pruned to what a verifier knows; every out-of-range index within three capacities and around powers of two must be refused.")
c("C12", "fault_enumeration", "exhaustive enumeration of single deviations of an adversarial prover playing the real gadgets, and of all replacements and splices of accepted objects, on the real verifier; all assignments of the captured level circuit over tiny curves",
  "Deviations at every level, in every rerandomization window; every wrong path length; every commitment replaced; every splice of two accepted objects; every other tree of a list. Honest plans are positive controls. The mirror image of an element is excluded from 'non-member' (by design unopenable).")
c("C15", "model_checking", "exhaustive enumeration of all assignments of the captured gadget circuits over small fields, bound to the code by capture through the ConstraintSystem trait and by real proofs",
  "The circuit a gadget builds is captured through the ConstraintSystem trait (coefficients read with the implementation's own evaluation) and all its assignments over small fields are enumerated by an exhaustive solver; 64-bit ranges: all deviations of up to two gates.")
c("C16", "model_checking", "exhaustive enumeration of all assignments of the captured gadget circuits over small curves with cofactor, bound to the code by capture through the ConstraintSystem trait and by real proofs",
  "Captured circuits; all solutions over tiny curves (with cofactors, so that 'a multiple of H' is a proper subset) for every input; at full size (60 to 256-bit scalars) the output must be determined by the bits, including all wrap-arounds of partial sums. A child's mirror image (same x, opposite y) counts as selected: the gadget only sees x, and nobody can open the result.")
c("C13", "exploration", "bounded exhaustive enumeration of index tuples, tree shapes and batch sizes through the real batched prover and verifier",
  "Every tuple of indices for every (branching factor, batch size, number of elements, height) within bounds; leaves compared with element + own blinding * H, verified with the full tree and with the root alone, and compared with single proofs in the same tree.")
c("C14", "fault_enumeration", "exhaustive enumeration of single deviations (level x position) of an adversarial prover playing the real batched gadgets, and of all replacements, permutations and splices of accepted objects, on the real verifier; all assignments of the captured batched level circuit over tiny curves",
  "Deviations at every level for every batch position and for all, contributions exchanged, duplicated or compensated between positions, wrong path lengths, every commitment replaced or permuted, every splice, every other tree of a list. Honest plans are positive controls. The mirror image of an element is excluded from 'non-member' (by design unopenable).")
c("C17", "exploration", "bounded exhaustive enumeration of mint/pour histories through the real provers and verifiers",
  "Every boundary amount minted; every ordered pair of positions, every split of boundary amounts, tree shapes; outputs are respent in a later tree after recovering their openings from the maker's randomness (the API does not return them).")
c("C18", "fault_enumeration", "exhaustive enumeration of single deviations of an adversarial spender playing the real circuits, and of all replacements and mixtures of accepted transactions, on the real verifier",
  "Wrong amounts, openings, keys, tags, signers, coins and trees; all mixtures of the fields of two transactions signed anew by the owners; every signature component replaced; every bit flipped. Honest transactions are positive controls.")
c("C07", "exploration", "exhaustive enumeration of prefixes and of single-byte changes of the encodings of a corpus of real objects, against re-encoding and re-verification",
  "Every prefix, every bit (structural bytes and, in the thorough tier, small objects: every value) of every object; whatever decodes must re-encode to the bytes it came from; direct, late and container validation must agree.")
c("C09", "exploration", "exhaustive enumeration of gadgets, public parameters and witnesses (right and wrong): recorded circuits compared row by row, and the witness-independent part of the real verifier's equation evaluated on the real prover's proofs",
  "All gadgets, every index of small trees, one wrong place at every level, batched statements, mints and pours; counts of both sides compared.")
c("C08", "exploration", "exhaustive enumeration of expression trees over all variable kinds, operators and operand types, evaluated on assignments that determine a linear map, and proved against spelled-out combinations by the real prover and verifier",
  "All expressions of depth 1 and 2; depth 3 over a reduced set of variables of every kind; all term lists up to length 3 (thorough 4) collected by value and by reference; both phases and gate inputs.")
c("C20", "exploration", "exhaustive enumeration of growth sequences of generator sets, of pairs of generators and of ways of building parameters, on the real code",
  "All growth sequences through a set of sizes up to 2-3 steps; all generators pairwise up to sign, small multiples and sums of two; 65600 parties; proofs interchanged between all ways of building.")
c("C19", "model_checking", "stateless exploration of all fork-join schedules (task order and thread, bounded number of deviating decisions) of the real parallel code under a controlled scheduler, compared with the serial build and with real thread pools",
  "rayon's join and scope are replaced by a controlled scheduler; every schedule up to the deviation bound must give the observables (trees, proof bytes, openings, verdicts on correct and altered objects) of the serial build of the same working tree; pools of 1 to 4 threads; proofs exchanged between the builds.")
c("C21", "exploration", "exhaustive single alteration of every random draw of scripted runs of the real provers, deciding the rank of the map from draws to blindings; shapes compared over all indices, values and witnesses",
  "Every draw of a run is altered alone and every message (with the prover's own recorded blinding coordinates) compared; the draw-to-blinding matrix must have full rank per flight. Distribution of a single draw is not tested: the generator is a stand-in.")
c("C22", "exploration", "bounded exhaustive enumeration of sequences of proofs over one transcript, and of all their reorderings, omissions and repetitions, on the real prover and verifier",
  "All sequences of statements of a catalogue up to length 2, 3 and 4 (over subsets), all ways of holding the transcript, outer messages in between; every list of the same length over the proofs made is verified and must be accepted exactly up to the first difference.")
c("C23", "exploration", "bounded exhaustive enumeration of sequences of statements on one pair of real provers and verifiers, and of all single faults and reorderings of each",
  "Sequences up to length 3 (thorough 4) of memberships (single, batched, with opened leaf), range proofs and products, on a 61-bit toy cycle.")
