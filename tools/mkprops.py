"""Writes /verif/properties.jsonl (kept as a script so the text is easy to edit)."""
import json, os
S='src/plaquette/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech):
    assert len(title)<=80,(id,len(title)); assert statement.count('. ')<=2,(id)
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=[S+f for f in files],mechanism=[dict(name=n,where=S+w) for n,w in mech])))
p('P01','Pauli products are exact, including sign and phase',
 "Multiplying any list of Pauli operators in binary form gives the true group product: on every qubit the right single-qubit operator, and an overall phase that is exactly the right power of i (times any initial phase given). The sign bit of the result is 1 exactly when that phase is -1 or -i. This holds for any number of qubits, any number of factors and any combination of signs on the factors.",
 ['inputs'],"All qubit counts n>=1, all lists of k>=1 operators over {I,X,Y,Z}^n with either sign.",
 "Tests multiply a few short one- and two-qubit words; nothing covers long operators, signed factors in products of three or more, or all of the 16 single-qubit cases at once.",
 ['pauli.py'],[('binary product with phase accumulation','pauli.py:multiply'),('single-qubit phase table','pauli.py:_g'),('row-wise operator application','pauli.py:apply_operator')])
p('P02','Commutation flags are the symplectic product',
 "The commutation test between two collections of Pauli operators reports, for every pair, 1 exactly when the two operators anticommute (the number of qubits on which they differ and are both non-identity is odd) and 0 otherwise, independently of signs. When asked to ignore destabilisers it reports only the pairs of stabilisers. It never depends on how many qubits the operators share.",
 ['inputs'],"All qubit counts, all pairs of collections of operators or states.",
 "Tests evaluate a handful of pairs on up to five qubits, where an accumulated count cannot overflow and no large overlaps occur.",
 ['pauli.py'],[('symplectic inner product modulo 2','pauli.py:commutator_sign'),('splitting a tableau in X, Z and sign parts','pauli.py:unpack_tableau')])
p('P03','Conversions between Pauli notations preserve the operator',
 "Converting a Pauli operator between its text, sparse and binary forms, padding it with identities, and joining operators or states side by side keep the same operator on the same qubits with the same sign; converting to another form and back returns the original, also for the identity operator. Counting qubits gives the total, or the number of non-identity positions when identities are excluded.",
 ['inputs'],"All operators of any length and sign (including the identity), all paddings, all tuples of operators or states to join.",
 "Tests round-trip a few fixed strings; nothing ranges over lengths, signs, all-identity operators or joins of more than two operands.",
 ['pauli.py'],[('text to binary','pauli.py:string_to_pauli'),('sparse to binary','pauli.py:dict_to_pauli'),('binary to text / sparse','pauli.py:pauli_to_string, pauli_to_dict'),('padding and joining','pauli.py:pad_operator, tensor_product'),('counting','pauli.py:count_qubits'),('single-qubit operators','pauli.py:single_qubit_pauli_operator')])
p('P04','Gates conjugate every stabiliser exactly and touch nothing else',
 "Applying X, Y, Z, Hadamard, phase, controlled-NOT or controlled-phase gates to any list of target qubits (in the given order, repeats included) replaces every row of the state by its conjugation under those gates, with the right sign, and leaves all other columns unchanged. Commutation relations between rows are therefore preserved, so a valid state stays valid.",
 ['inputs'],"All states of any size, all target lists / control-target pairs in range.",
 "Tests apply each gate to a few states of one to five qubits and mostly single targets.",
 ['pauli.py'],[('gates on tableaus','pauli.py:hadamard, phase_gate, control_not_gate, control_phase_gate, x, y, z')])
p('P05','Measurement collapses the state correctly and repeatably',
 "Measuring any Pauli operator on a valid state leaves a valid state stabilised by the operator with the reported sign, so measuring again gives the same outcome; if plus or minus the operator was already stabilised, the outcome is that sign and the state is unchanged. If the outcome is not determined it is the forced value or a fair random bit. Every stabiliser that commuted with the operator is still stabilised afterwards.",
 ['inputs','histories'],"All valid states of any size reached by any history, all signed Pauli operators (including the identity), all forced outcomes.",
 "Tests measure a few product and Bell states; correctness of the update depends on the entire tableau and is only sampled.",
 ['pauli.py'],[('projective measurement update','pauli.py:measure'),('basis-wise measurement of several qubits','pauli.py:_measure_base, measure_x_base, measure_z_base')])
p('P06','Resetting, discarding and adding qubits leave the rest intact',
 "Resetting qubits puts each of them in the requested eigenstate (with the requested sign); measuring qubits destructively removes exactly them and leaves the post-measurement state of the others; inserting qubits adds them in the zero state at the requested positions. In each case the result is a valid state and the qubits not involved keep exactly the correlations they had (up to the collapse a measurement causes), for any number of qubits handled in one call.",
 ['inputs','histories'],"All valid states, any set of target qubits or positions, both bases and signs.",
 "Insertion has no test at all ('TODO: add tests' in the code); destructive measurement of several qubits in one call is never executed.",
 ['pauli.py'],[('reset','pauli.py:reset_qubits_to_eigenstate'),('destructive measurement','pauli.py:_measure_base, _ptrace'),('adding qubits','pauli.py:insert_qubit_at, append_qubit')])
p('P07','Built-in code families are valid codes at every size',
 "For every supported size, each built-in code (repetition, planar, rotated planar in both variants, toric, Shor, five-qubit) has pairwise commuting stabiliser generators, logical operators that commute with all stabilisers, and logical X/Z pairs that anticommute with their partner and commute with all others. The number of data qubits minus the number of independent generators equals the number of logical qubits, and the parallel measurement schedule gives every stabiliser-qubit link exactly one time slot with no qubit used twice in a slot.",
 ['inputs','configurations'],"All sizes n (odd n for the repetition code), both rotated-planar variants.",
 "Tests build sizes up to about ten; validity for all sizes is an algebraic statement about the layout rules, and boundary/parity cases differ with size.",
 ['codes/latticeinstances.py','codes/latticebase.py','codes/__init__.py'],[('layout rules','codes/latticeinstances.py'),('schedule assignment','codes/latticebase.py:CodeLattice.assign_stab_edge_order'),('index assignment','codes/latticebase.py:CodeLattice.assign_indices'),('validity check','codes/__init__.py:StabilizerCode.check')])
p('P08','Code operators mirror the lattice graph, and custom codes survive',
 "The stabiliser and logical operators of a code act on exactly the data qubits linked to the corresponding vertex, with the link's Pauli type, and every index attached to a vertex is its position in the corresponding list (data, then stabilisers, then logicals). Building a code from given operators and reading the operators back returns the same operators. Adding and removing links or vertices keeps both ends of every link consistent.",
 ['inputs','histories'],"All lattices and all sequences of adding/removing vertices and links; all valid operator lists for custom codes.",
 "Tests compare three small codes with fixed strings.",
 ['codes/latticebase.py','codes/__init__.py'],[('operators from links','codes/latticebase.py:CodeLattice._vertices_to_operators'),('graph edits','codes/latticebase.py:CodeLattice.add_edge, remove_edge, remove_vertex'),('custom codes','codes/latticebase.py:CodeLatticeFromStab'),('requested logicals to indices','codes/__init__.py:StabilizerCode.logical_ops_to_indices')])
p('P09','Working around fabrication defects keeps the code valid',
 "Removing any set of faulty data qubits from a planar code (given directly, via a faulty link or a faulty stabiliser) either reports that a logical operator cannot be preserved or, with superstabilisers (no gauge operators kept), yields a lattice whose stabilisers all commute, whose logical pair still anticommutes and commutes with every stabiliser, in which no removed qubit appears and all indices are consistent. A merged stabiliser is the product of the ones it replaces.",
 ['inputs','fault_sequences'],"All sizes and all sets/orders of faulty qubits, links and stabilisers, for both boundary strategies.",
 "Tests remove one or two fixed qubits; the combinations of removals and the multi-step merging history are unbounded.",
 ['codes/latticebase.py','codes/__init__.py'],[('merging stabilisers','codes/latticebase.py:CodeLattice.create_superstab'),('rerouting logicals','codes/latticebase.py:CodeLattice.multiply_logical_with_stab'),('removing a qubit','codes/latticebase.py:CodeLattice.remove_dataqubit, _handle_dataqubit_edgegroups')])
p('P10','Circuit text is validated and survives a round trip',
 "Printing any circuit built through the API and parsing the text gives the same list of instructions with the same arguments (exact probabilities included), and comments, blank lines and surrounding whitespace have no effect. Instructions that are unknown, have the wrong number of arguments, non-integer qubits or an out-of-range probability on a conditional error are rejected. The reported number of qubits is one more than the largest qubit index used, and the number of measurements is the number of measured qubits.",
 ['programs','inputs'],"All circuits over the supported instruction set, all texts.",
 "Tests parse a few sample circuits.",
 ['circuit/__init__.py'],[('validation and normalisation','circuit/__init__.py:Circuit.append'),('parsing and printing','circuit/__init__.py:Circuit.append_from_str, __str__'),('counts','circuit/__init__.py:Circuit.number_of_qubits, number_measured_qubits'),('builder methods','circuit/__init__.py:CircuitBuilder')])
p('P11','OpenQASM export is faithful',
 "Exporting a circuit to OpenQASM gives, in order, one statement per elementary operation of every supported instruction (gates, resets and measurements) on the same qubits, sends the k-th measurement to the k-th classical bit, and declares registers of exactly the needed size. Unsupported instructions raise an error, or are skipped without affecting anything else when the caller asks for that.",
 ['programs'],"All circuits over the supported instruction set.",
 "Tests compare a few sample circuits with stored texts; none contains a reset.",
 ['circuit/openqasm.py'],[('instruction translation','circuit/openqasm.py:convert_to_openqasm')])
p('P12','Generated error-correction circuits have the documented layout and noise',
 "A generated circuit measures the chosen logical operators, then all stabilisers without noise, then the requested number of rounds (each: data-qubit noise followed by one measurement of every stabiliser, the last round with ideal gates), then the logicals again; each stabiliser measurement couples its ancilla to exactly the qubits of that stabiliser with the link's Pauli type and measures once, in stabiliser order. Every configured data-qubit channel, measurement error and gate error appears exactly where it applies with exactly the configured probabilities, and nothing else is added.",
 ['configurations','inputs'],"All codes, numbers of rounds, choices of logical operators, both logical-measurement modes and all error tables.",
 "Tests look at a few circuits of small codes; error placement for arbitrary tables, rounds and lattice graphs is not covered.",
 ['circuit/generator.py'],[('circuit assembly','circuit/generator.py:QECCircuitGenerator.get_circuit'),('stabiliser measurement blocks','circuit/generator.py:QECCircuitGenerator.measure_stabgens_pl, measure_op'),('noise placement','circuit/generator.py:QECCircuitGenerator.apply_dataqubit_errors, apply_gate_error, apply_measurement_error')])
p('P13','Without noise, generated circuits show no syndrome and no logical flip',
 "Running a generated circuit without noise always yields an all-zero syndrome in every round and no logical flip, for every code, every choice of commuting logical operators and both ways of measuring them. A single Pauli error on a data qubit before a given round flips exactly the stabilisers that anticommute with it in that round and flips exactly the measured logical operators that anticommute with it.",
 ['configurations','inputs'],"All built-in and custom codes, rounds, measured logicals, measurement modes, all single-qubit Pauli errors at all rounds and all random measurement outcomes.",
 "Tests run noiseless circuits of small codes with the Z logical in one mode; the X logical's initial and final values are never compared.",
 ['circuit/generator.py','device/_circuitsim.py','device/__init__.py'],[('logical measurement','circuit/generator.py:QECCircuitGenerator.measure_logical_ops'),('stabiliser measurement','circuit/generator.py:QECCircuitGenerator.measure_stabgens'),('raw results to syndrome','device/__init__.py:MeasurementSample.from_code_and_raw_results')])
p('P14','Raw measurement records are unpacked into the right syndrome',
 "The flat list of measurement outcomes and erasure flags of a generated circuit is split into initial logical values, one row of stabiliser values per repetition, and final logical values: each logical value is the parity of its own measured qubits, the syndrome is the difference of consecutive stabiliser rows, the logical flip is initial xor final, and erasure flag number k belongs to round k div n, data qubit k mod n. This holds for every code, number of rounds, set of erasure-affected qubits and choice of measured logical operators, whichever their weights.",
 ['inputs','configurations'],"All codes (logical operators of equal or different weight), numbers of rounds, logical choices and outcome vectors.",
 "Tests unpack samples of a few codes whose two logical operators have the same weight.",
 ['device/__init__.py'],[('unpacking','device/__init__.py:MeasurementSample.from_code_and_raw_results')])
p('P15','The reference simulator executes each instruction as documented',
 "The built-in simulator executes instructions in order: gates act on the listed qubits (pairwise for two-qubit gates), each measured qubit appends one outcome, each erasure instruction appends one flag and, when it fires, applies I, X, Y or Z uniformly; Pauli channels apply each Pauli with exactly its listed probability. A conditional error applies its gate with the given probability, a continuation applies its gate exactly when its branch fired, an alternative is tried only if no earlier branch of the same group fired, and both are rejected outside a group. Each fresh run starts from the zero state with empty records.",
 ['programs','histories'],"All circuits over the instruction set, all random draws and repeated runs.",
 "Tests run sample circuits mostly with probabilities 0 or 1; chains of conditional errors and multi-target instructions under arbitrary draws are not enumerated.",
 ['device/_circuitsim.py','device/__init__.py'],[('instruction dispatch','device/_circuitsim.py:CircuitSimulator._handle_gate'),('conditional errors','device/_circuitsim.py:CircuitSimulator._handle_error'),('run and reset','device/_circuitsim.py:CircuitSimulator.run, reset')])
p('P16','The fast backend simulates exactly the same process',
 "Translating a circuit for the external fast simulator preserves every instruction, its qubits and its probabilities, so both backends sample the same joint distribution of outcomes and erasure flags; in particular an erasure with probability p raises its flag with probability p and then applies I, X, Y or Z with probability p/4 each. Erasure flags are separated from measurement outcomes in order. Instructions that cannot be translated are rejected, never silently dropped.",
 ['programs','inputs'],"All circuits over the instruction set, all probabilities, all batch sizes and numbers of samples drawn.",
 "Tests compare a few circuits statistically with deterministic outcomes; small probability errors in rare branches are invisible to sampling.",
 ['device/_stimsim.py'],[('translation','device/_stimsim.py:circuit_to_stim'),('heralded erasure','device/_stimsim.py:_append_equiprobable'),('batching and record splitting','device/_stimsim.py:StimSimulator')])
p('P17','A device runs the circuit it was given, with independent shots',
 "A device always executes the circuit passed to the latest run call, whether passed as a circuit or as a builder, and returns the record of that very run: one outcome per measured qubit and one flag per erasure instruction (none when there are no erasures). Repeated runs of the same circuit continue the same random stream rather than repeating it, and continuing without a reset keeps the state and appends to the record. Unknown backends are rejected.",
 ['histories','configurations'],"All sequences of run/sample calls, circuits and builders, on both local backends with or without a seed.",
 "Tests run each circuit once per device; repeated runs of a builder and switching circuits on one device are not covered.",
 ['device/__init__.py','device/_stimsim.py'],[('backend management','device/__init__.py:Device.run'),('sampling','device/__init__.py:Device.get_sample, device/_stimsim.py:StimSimulator.run')])
p('P18','Error tables are converted without loss and checked against the code',
 "The error dictionaries derived from the qubit and gate error tables contain exactly the enabled entries with exactly the tabulated probabilities, assigned to the right qubits or qubit pairs; every error channel a configuration lists for a gate is kept. Tables attached to a wrong kind of qubit, an unknown error type or channel, or an out-of-range index are rejected. Adding or updating entries changes exactly those entries.",
 ['inputs','histories','configurations'],"All tables, all sets of enabled errors, all codes and all sequences of updates.",
 "Tests check a few tables on one or two lattices, mostly with a single channel per gate.",
 ['errors/__init__.py','codes/latticebase.py'],[('table to dictionaries','errors/__init__.py:ErrorData.qubit_errors_dict, gate_errors_dict, error_data_dict'),('checking','errors/__init__.py:ErrorData.check_against_code'),('configuration to tables','errors/__init__.py:assimilate_qubit_errors, assimilate_gate_errors'),('updates','errors/__init__.py:ErrorData.add_qubit_error, update_qubit_error, add_gate_error, update')])
p('P19','Edge weights are the log-odds of the error probabilities',
 "The weight of each decoding-graph edge is -ln(p/(1-p)), where p is the probability that the corresponding error happens: pX+pY for bit flips and pY+pZ for phase flips of that data qubit, and the measurement error probability of that stabiliser; independent sources for one edge combine as the probability that an odd number occurs. Entries missing from the tables count as probability zero, and each qubit's own probabilities are used.",
 ['inputs','configurations'],"All codes and error tables, all probabilities in [0,1].",
 "Tests use uniform probabilities, which cannot reveal swapped qubits or channels.",
 ['syngraph/weights.py'],[('effective probabilities','syngraph/weights.py:WeightComputation._p_eff_pauli_1, _p_eff_erasure, _p_meas, _update_p_eff'),('weights','syngraph/weights.py:WeightComputation.get_edge_weights')])
p('P20','The decoding graph matches the code and is partitioned consistently',
 "The decoding graph has one vertex per round and stabiliser, one edge per round and single-qubit X or Z error linking exactly the stabilisers that anticommute with it in that round, and one edge per stabiliser and pair of consecutive rounds; of several edges with the same ends only one of least weight stays enabled, and impossible ones (infinite weight) are disabled. Every vertex and enabled edge belongs to exactly one connected component; syndrome, weights and erasures are handed to the right component positions; and component results are recombined into the product of the selected single-qubit errors over all rounds. Codes for which some single error flips more than two stabilisers are rejected.",
 ['configurations','inputs'],"All codes, numbers of rounds, weights, syndromes, erasure patterns and decoder results.",
 "Tests exercise a few small codes end to end, where misrouted entries can cancel.",
 ['syngraph/__init__.py'],[('graph construction','syngraph/__init__.py:SyndromeGraph._init_vertices, _init_qubit_error_edges, _init_measurement_error_edges'),('duplicate and impossible edges','syngraph/__init__.py:SyndromeGraph._check_edges_duplicate, _check_edges_infweight'),('components','syngraph/__init__.py:SyndromeGraph._init_conn_components'),('distribution and recombination','syngraph/__init__.py:SyndromeGraph.set_syndrome, set_erasure, set_edge_weights, update_decoder_results, result_as_pauli_frame')])
p('P21','Every decoder returns a correction that explains the syndrome',
 "For every syndrome that some error pattern can produce, each decoder returns a set of graph edges whose combined effect is exactly that syndrome, so applying the correction always returns to the code space; impossible syndromes are rejected. Erasure-aware decoders given an erasure that explains the syndrome use only erased qubits. Weights supplied by the caller are used as given, and decoding one sample does not influence the next.",
 ['inputs','histories'],"All codes and graphs, weights, syndromes, erasures and sequences of decode calls, for all four decoders.",
 "Tests decode a few hundred random samples on small planar codes; correctness for every graph and syndrome rests on loop invariants of the growing, forest and peeling steps.",
 ['decoders/unionfind_decoder.py','decoders/unionfind_erasure.py','decoders/unionfind_interfaces.py','decoders/matching.py','decoders/fusionblossom.py','decoders/decoderbase.py'],[('cluster growth','decoders/unionfind_decoder.py:UnionFindNoWeights.union_find'),('spanning forest and peeling','decoders/unionfind_erasure.py:ErasureDecoder'),('interfaces to external matchers','decoders/matching.py, decoders/fusionblossom.py'),('orchestration','decoders/decoderbase.py:ComponentDecoder, DecoderInterface')])
p('P22','The verdict on a decoded sample is right',
 "A decoded sample counts as a success exactly when, for every measured logical operator, the observed flip equals the flip the correction predicts (whether the correction anticommutes with that operator). Requested logical operators given by name select the matching operator of each logical qubit in order, and wrong names, counts or indices are rejected. The reported logical error rate is the fraction of failed samples.",
 ['inputs'],"All codes, corrections, flip vectors and selections of logical operators.",
 "Tests only see verdicts of end-to-end runs, where a wrong verdict is indistinguishable from noise.",
 ['decoders/decoderbase.py','codes/__init__.py','frontend/__init__.py'],[('verdict','decoders/decoderbase.py:check_success'),('name to operator index','codes/__init__.py:StabilizerCode.logical_ops_to_indices'),('experiment loop','frontend/__init__.py:ExperimentConfig.run')])
p('P23','An experiment configuration means what it says',
 "Every setting given in a configuration is carried over unchanged into the configuration object, missing settings take their documented defaults, and invalid codes, sizes, devices, decoders, shot counts or error distributions are rejected. The objects built from it match it: the named code with that size and number of rounds, exactly the enabled errors with their parameters, and the named device and decoder.",
 ['configurations'],"All configuration dictionaries accepted by the schema and all single-setting mutations of them.",
 "Tests load a few files; each setting is checked for one or two values.",
 ['frontend/__init__.py'],[('configuration classes','frontend/__init__.py:CodeConfig, QubitErrorsConfig, GateErrorsConfig, DeviceConfig, DecoderConfig, ExperimentConfig'),('errors passed on','frontend/__init__.py:QubitErrorsConfig.simulated_errors, GateErrorsConfig.simulated_errors')])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
print(len(P))
