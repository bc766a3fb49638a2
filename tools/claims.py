c("C01","Every schedule of the listed shapes, for all seven solvers, is walked on the real code and its records compared with the report-loop model; schedules beyond the alphabet of increments are not covered.")
c("C02","Every model evaluation time and step of every enumerated schedule is observed from inside the model's own derivative function.")
c("C07","Every subset of the interior step boundaries is used as a report schedule and compared with the full one.")
c("C08","Every placement of up to two (thorough: three) stop/copy/save/reload actions in a run, for all solvers, compared bit for bit with the uninterrupted run.")
c("C18","Every record of every enumerated walk is re-evaluated with the model.")
c("C23","Every enumerated schedule, tolerance, iteration limit and discontinuous or stiff model is walked under a bound on model evaluations; termination beyond the enumerated cases is not proved.")
c("C03","Every rooted tree (elementary differential) up to 5 nodes (thorough: 6) with every choice of time leaves, in 12 placements over the state vector, decides all Runge-Kutta coefficients; plus enumerated linear and nonlinear multi-step runs against the textbook tableaus.")
c("C04","As C03 for the embedded pairs, including both reported error norms; every accepted step of enumerated adaptive runs is recomputed.")
c("C05","Every script of piecewise constant derivatives over the value alphabet, crossed with tolerances, iteration limits and step limits, is run and replayed attempt by attempt by an independent monitor; decisions closer to a threshold than rounding are not judged.")
c("C06","Every enumerated run is repeated under the four flag combinations and its log chained entry by entry against the run.")
c("C09","All values of every serializable type over a number alphabet and option/vector shapes, and all systems reached by enumerated walks, in all formats; numbers outside the alphabet are not covered.")
c("C10","A write failure at every byte of the document (by a file size limit on the real file), every truncation point, every listed name and previous content.",tech="exhaustive fault enumeration on the real code: every failure offset, truncation point and name shape",level="fault_enumeration")
c("C11","All operation sequences to the stated depth on every listed container type compared with a list model.")
c("C20","All argument tuples over the stated value alphabets, including the number-format extremes.")
c("C16","All combinations of parameter, temperature, step, solver, tolerance and schedule alphabets on the example system and a ring network.")
c("C17","As C16 for the boundary-driven example and a two-reservoir chain with constant and prescribed boundaries; adaptive runs are recomputed step by step from their own log.")
c("C19","All interleavings with bounded preemptions at model-evaluation granularity (two and three concurrent walks), all report-level interleavings on one thread, nesting at every evaluation; and, single-stepping a walk, one preemption by a whole other walk at every instruction of the program's own code (several preemptions at that granularity, and preemption inside the C library, are not enumerated).")
c("C12","All generated definitions, reached states (saves, stains, walks), and all sequences of operations on either the original or its copy to the stated depth.")
c("C13","All marker sequences up to three components (and selected longer and nested ones), three field and attribute layouts each; every operation sequence to the stated depth against a list model.")
c("C14","All operation sequences to the stated depth on all generated systems, against a model in which each component acts by its own rule.")
c("C15","All connection lists up to length three over four components in both macros' notations (and selected longer ones), with all temperature assignments from the alphabet.")
c("C21","All constructors over argument alphabets, all operation sequences to the stated depth, all truncations and listed corruptions of text, compared between the built module in Python processes and the Rust library; values outside the alphabets are not covered.")
c("C22","All programs of the enumerated grammar of macro arguments are handed to the real compiler; arguments outside that grammar are not covered.",tech="exhaustive enumeration of a bounded grammar of macro arguments, each judged by the real compiler against the rule model",level="exploration")
c("C24","Every combination of leftovers on every enumerated problem, compared bit for bit with the clean run.")
c("C25","Every enumerated chain of step sizes or tolerances against exact solutions; other problems are not covered.")
c("C26","Every enumerated change of units, origin and layout against the plain run; agreement up to rounding, or to the tolerance where rounding decided about a step differently.")
