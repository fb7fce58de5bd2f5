prop('C01', 'Assembling an instruction and disassembling it is the identity',
     'For every instruction type (any nesting of enumerations, bit vectors, tuples, records, untagged and tagged unions, signed and unsigned fields) '
     'and every instruction of it, the machine word is the documented packing of its parts and disassembling it gives the same instruction back, whatever '
     'happens to the bits that do not matter. Different instructions get different words, for both assembler generations and for every bit-vector type '
     'the word is requested in. Tags likewise convert to bits and back.',
     ['inputs', 'configurations'], 'all instruction-type shapes of the bounded grammar (depth <= 3, up to 8 alternatives, zero-width parts) x all their instructions x both assemblers',
     'tests/test_assembler.py and test_assembler2.py round-trip a few hand-written types with a handful of values each; the guarantee is over all types and instructions',
     ['peak/assembler/assembler.py', 'peak/assembler2/assembler.py', 'peak/assembler2/assembler_util.py', 'peak/assembler/assembler_util.py'],
     [('assemble / disassemble closures per kind of type', 'peak/assembler/assembler.py:_enum,_struct,_sum,_field'), ('second generation', 'peak/assembler2/assembler.py:Assembler')],
     ['Assembler(T).assemble(inst)', 'Assembler(T).disassemble(word)', 'Assembler(T).assemble_tag / disassemble_tag'],
     'exhaustive enumeration of types x instructions on the real code against an integer model of the encoding',
     'exhaustive within the shape grammar (quick ~450 shapes, all their instructions); trusts the 60-line integer encoding model in mc/shapes.py')

prop('C02', 'Opcode validity is exact and independent of history',
     'A machine word is reported valid exactly when it encodes some instruction of the type, for every word of the width, concretely and symbolically, and '
     'whichever types were checked before and in whatever order. Words that encode no instruction are rejected by the disassembler instead of giving an instruction.',
     ['inputs', 'configurations', 'histories'], 'all words of every shape of the grammar; all opcode sets up to the bound; all orders of validity queries over families of types that could share cached validators',
     'tests check is_valid on a few types; the validators are built from ranges of codes and cached across types, so exactness depends on every word and on the history of earlier queries',
     ['peak/assembler/assembler_util.py', 'peak/assembler2/assembler_util.py', 'peak/assembler/assembler.py', 'peak/assembler2/assembler.py'],
     [('range based validators with a cache', 'peak/assembler/assembler_util.py:_issue_valid / generate validators'), ('is_valid of composite types', 'peak/assembler*/assembler.py')],
     ['Assembler(T).is_valid(word)', 'AssembledADT._is_valid_', 'Assembler(T).disassemble(word)'],
     'exhaustive enumeration of words, opcode sets and query histories on the real code against set membership',
     'exhaustive over all words of all shapes, all subsets of small code spaces and all query orders within the bound; symbolic validators are evaluated on every word')

prop('C03', 'Field layouts are disjoint, complete and agree with the word',
     'For every composite instruction type the published bit ranges of its fields lie inside the word, do not overlap (alternatives of a union share one payload '
     'area next to the tag) and cover exactly the bits each field needs. Extracting a field of an assembled word gives the assembled field, and composing a word from '
     'its fields gives the assembled instruction, for every instruction and every fill of the unused bits.',
     ['inputs', 'configurations'], 'all shapes of the grammar x all instructions x all fields',
     'tests look at layouts of a few types; overlap or misplacement only shows for particular neighbours and values',
     ['peak/assembler/assembler.py', 'peak/assembler2/assembler.py', 'peak/assembler/assembled_adt.py'],
     [('layout computation', 'peak/assembler*/assembler.py:layout, sub'), ('composition by layout', 'peak/assembler/assembled_adt.py:_create_from_layout')],
     ['Assembler.layout / width / sub / tag_layout', 'Assembler2.extract / match / from_fields'],
     'exhaustive enumeration of types x instructions x fields on the real code against an integer model',
     'exhaustive within the shape grammar')

prop('C04', 'Assembled values behave exactly like the instructions they encode',
     'A value of an assembled instruction type gives, for every field access, alternative test, tag, comparison and construction (from a word, an instruction, or from parts, '
     'over plain and symbolic bit vectors), the same answer as the plain instruction it encodes. This holds for every instruction and does not depend on bits that carry no meaning.',
     ['inputs', 'configurations'], 'all shapes of the grammar x all instructions x all accessors, constructors and pairs of values',
     'tests exercise accessors on a few types and values; equality, matching and composition have per-kind special cases',
     ['peak/assembler/assembled_adt.py', 'peak/assembler2/assembled_adt.py'],
     [('field access and match', 'peak/assembler/assembled_adt.py:AssembledADT._get'), ('construction from fields', 'peak/assembler/assembled_adt.py:_product_from_fields and siblings'),
      ('equality', 'peak/assembler/assembled_adt.py:AssembledADT.__eq__')],
     ['AssembledADT[T, Assembler, BV](x).field', 'value[T].match / .value', 'AADT.from_fields(...)', '== and !='],
     'exhaustive enumeration of types x values x accessors on the real code against the plain instruction objects',
     'exhaustive within the shape grammar, for both generations and for concrete and symbolic vectors (terms evaluated on every instruction)')

prop('C05', 'The encoding is a fixed function of the type',
     'The machine encoding of an instruction type depends only on the declared type: not on the order in which types or assemblers were created, on the process, or on hash '
     'randomisation, and both assembler generations choose the same encoding. Enumeration members without a code get the smallest unused codes in declaration order.',
     ['histories', 'configurations', 'programs'], 'all creation orders of small sets of types, several hash seeds and processes, all shapes of the grammar, all mixes of explicit and automatic enumeration codes up to the bound',
     'every test runs in one process with one history; a different iteration order of a set or dict changes encodings only in other runs',
     ['peak/assembler/assembler.py', 'peak/assembler2/assembler.py', 'peak/assembler/assembler_util.py'],
     [('automatic enumeration codes', 'peak/assembler*/assembler.py:_enum'), ('ordering of alternatives for tags', 'peak/assembler*/assembler.py:_sum')],
     ['words of all instructions compared across histories, processes and generations'],
     'exhaustive enumeration of creation histories and processes on the real code',
     'all permutations of creation up to the bound, 4 hash seeds in quick and 12 in thorough; alternatives of a union are assumed to have distinct printed names')

prop('C06', 'A PE computes the same function in every interpretation',
     'A processing element executed as plain Python, as rewritten Python over assembled instructions, symbolically, and as generated hardware produces the same outputs for every '
     'instruction, every input and every sequence of calls, including its registers and its nested elements; wrapping the hardware to take the instruction as a word changes nothing. This covers every control-flow form (nested and one-sided conditionals, '
     'early returns, reassignment, attribute registers) and every way of decoding, comparing and building instructions.',
     ['programs', 'inputs', 'histories'], 'all generated PEs of the bounded grammar x all instructions x all inputs x all input sequences of the bound',
     'tests compare interpretations on a few PEs, mostly that they elaborate at all; miscompilation needs particular statement and type combinations and values',
     ['peak/family.py', 'peak/peak.py', 'peak/features.py', 'peak/assembler/assembled_adt.py', 'peak/rtl_utils.py'],
     [('rewriting and assembling per family', 'peak/family.py:_StdMix.assemble, MagmaFamily.assemble'), ('attribute registers', 'peak/peak.py:Peak.__getattribute__,__setattr__'),
      ('assembled instruction operands', 'peak/assembler/assembled_adt.py')],
     ['PE_fc.Py()(...)', 'PE_fc.PyX()(...)', 'PE_fc.SMT()(...)', 'PE_fc.Magma compiled to CoreIR'],
     'explicit-state exploration: generated PEs x all inputs/sequences, all four interpretations against a direct interpretation over integers',
     'hardware is judged on the emitted CoreIR netlist, executed by mc/netlist.py (trusted); two known findings (values of compound type merged by a conditional, in hardware) are listed')

prop('C07', 'State elements hold exactly what was last written',
     'A register gives the value it holds - its declared initial value at first - and after a clock step holds the value written, or the old one when writing is not enabled. A memory '
     'is one such cell per address. No two elements or instances share state, whatever was created or executed before, and the same holds symbolically and in generated hardware.',
     ['histories', 'configurations', 'inputs'], 'all sequences of reads, enabled and disabled writes up to the bound, over every register kind, value type, family, and pairs of elements; all sequences of memory operations',
     'tests run a register a few steps in one family; sharing, stale values and enable errors only appear in particular sequences and combinations',
     ['peak/register.py', 'peak/memory.py', 'peak/peak.py', 'peak/family.py'],
     [('generated registers', 'peak/register.py:gen_register, gen_register2'), ('attribute registers', 'peak/peak.py:Peak.__setattr__, peak/family.py:gen_attr_register'), ('memories', 'peak/memory.py:gen_SRAM, RAM, ROM')],
     ['register(value, enable) results per step', 'memory(addr, data, wen) results per step', 'netlist of PEs with registers'],
     'explicit-state exploration of the real elements under all operation sequences against a plain cell model',
     'sequences up to length 5 (7 thorough) over small value domains; hardware judged on the emitted netlist including reset')

prop('C08', 'A family closure answers every request with exactly its family\'s class',
     'Instantiating a closure for a family gives the class built by running the closure body for exactly that family and those options, and the same class every time it is asked again, '
     'whatever was requested before and in whatever order. Families compare equal exactly when they are interchangeable, and each offers its own consistent vocabulary of types and constructors.',
     ['histories', 'configurations'], 'all histories of instantiation requests up to the bound over all families, their user-defined subclasses and option values; all pairs of families',
     'tests instantiate in one order; a cache that confuses two families only shows after a particular history',
     ['peak/features.py', 'peak/family.py'],
     [('closure cache', 'peak/features.py:family_closure.__call__'), ('family identity', 'peak/family.py:AbstractFamily.__eq__, __hash__')],
     ['closure(family)', 'closure.Py / PyX / SMT / Magma', 'family ==, hash, get_adt_t, get_constructor, BitVector etc.'],
     'explicit-state exploration of all request histories on the real closures against a map from (family, options) to class',
     'histories up to length 5 (6 thorough) over 11 families')

prop('C09', 'Black boxes follow their presetting protocol wherever they sit',
     'A black box returns on a call exactly the outputs preset for it, whatever they are, and afterwards shows exactly the inputs of its latest call; reading or calling it before the respective step is an error. '
     'Every black box anywhere in a hierarchy of elements is found under its own path, each with its own independent preset and recorded values, and data flows through it unchanged.',
     ['histories', 'configurations', 'inputs'], 'all sequences of preset, call (positional and keyword) and read operations up to the bound for every signature; all bounded hierarchies; all inputs and preset outputs of PEs that contain black boxes',
     'tests use one PE with fixed black boxes and one sequence of operations',
     ['peak/black_box.py', 'peak/peak.py'],
     [('protocol', 'peak/black_box.py:BlackBox'), ('discovery', 'peak/black_box.py:get_black_boxes')],
     ['BlackBox._set_outputs / __call__ / _get_inputs', 'get_black_boxes(pe) paths'],
     'explicit-state exploration of operation sequences and hierarchies on the real code against a protocol model',
     'sequences up to length 4 (5 thorough), hierarchies up to depth 3')

prop('C10', 'The published interface of a processing element is its declaration',
     'The input and output records of a processing element list exactly its arguments and results, in declaration order and with the declared types, in every family and whatever the names '
     'and constness are. With type checking on, a call is rejected exactly when a result does not have its declared type; otherwise it behaves as without checking.',
     ['programs', 'configurations', 'inputs'], 'all signatures up to the bound over all argument kinds, names and orders; all combinations of missing annotations, inheritance and switches; all well- and ill-typed results',
     'tests look at the interface of a few PEs',
     ['peak/peak.py', 'peak/features.py'],
     [('interface records', 'peak/features.py:gen_input_t, gen_output_t, name_outputs'), ('type checking', 'peak/features.py:typecheck')],
     ['PE.input_t.field_dict / output_t.field_dict', 'typechecked __call__'],
     'exhaustive enumeration of signatures, families and calls on the real code against the declaration',
     'signatures up to 3 arguments and 3 results')

prop('C15', 'The mapper\'s search space is exactly the set of candidate rules',
     'For every instruction type, each instruction belongs to exactly one form; the leaves, tags and match conditions reported for a form are the instruction\'s own parts, both for free '
     'instructions and for given values. Candidate bindings are exactly the type-respecting pairings, each once. Index variables encode choices one-to-one with exact validity. '
     'Simplifying a binding never changes what it stands for, whichever leaves are constants, program inputs or unbound.',
     ['inputs', 'configurations'], 'all shapes of the grammar x all instructions; all bindings of up to 4 (5) leaves over 3 types; all index sizes and all values of the index variable; all ways to bind the leaves of every instruction',
     'a form or pairing that is missing, or a leaf with wrong bits, makes the mapper miss rules or return wrong ones for particular types only',
     ['peak/mapper/utils.py', 'peak/mapper/index_var.py', 'peak/mapper/multi.py'],
     [('forms', 'peak/mapper/utils.py:SMTForms'), ('bindings', 'peak/mapper/utils.py:create_bindings, peak/mapper/multi.py:create_bindings'),
      ('simplification', 'peak/mapper/utils.py:SimplifyBinding'), ('index variables', 'peak/mapper/index_var.py')],
     ['SMTForms()(T)', 'create_bindings(arch, ir)', 'OneHot / Binary', 'SimplifyBinding()(T, binding)'],
     'exhaustive enumeration of types, instructions, bindings and index values on the real code; symbolic leaves are evaluated on every instruction',
     'exhaustive within the shape grammar and the leaf bound')

prop('C11', 'Every rewrite rule the mapper returns is correct',
     'Whatever rewrite rule the mapper returns - with either formula, either index encoding, any start of the search loop, with or without path constraints or black boxes - executing the processing '
     'element on the inputs the rule builds gives the outputs of the program for every input, whatever the unbound inputs are and whatever the black boxes compute. Its constants are valid and obey the '
     'path constraints, every program input and output is bound exactly once, and its own verification accepts it.',
     ['programs', 'inputs', 'configurations'], 'all pairs of elements and programs of the catalogue x mapper configurations x constraint sets; every returned rule is compared on all inputs',
     'tests look at a handful of rules on random inputs; a rule that is wrong for one input or one unbound value, or only with one formula, passes',
     ['peak/mapper/mapper.py', 'peak/mapper/utils.py', 'peak/mapper/formula_constructor.py', 'peak/mapper/index_var.py'],
     [('query', 'peak/mapper/mapper.py:IRMapper'), ('rule construction', 'peak/mapper/mapper.py:rr_from_solver'), ('running rules', 'peak/mapper/mapper.py:RewriteRule.build_inputs')],
     ['ArchMapper(..).process_ir_instruction(..).solve(..)', 'RewriteRule.ibinding / obinding', 'RewriteRule.build_inputs / verify'],
     'exhaustive exploration of all inputs of each returned rule, on an integer model of element and program and on the real classes; all element x program x configuration combinations',
     'exhaustive for a catalogue of elements and programs at width 2')

prop('C12', 'The mapper finds a rewrite rule exactly when one exists',
     'When some type-respecting binding of the program to the element, with some valid constants that obey the path constraints, computes the program for every input, the mapper returns a rule; when there '
     'is none it says so. The answer does not depend on the formula, the index encoding, the start of the search loop or on solving in one query.',
     ['programs', 'inputs', 'configurations'], 'all pairs of elements and programs of the catalogue x mapper configurations x constraint sets, against the set of all rules computed by brute force',
     'a missed rule looks like a legitimate "no rule": a test cannot tell without the set of all rules',
     ['peak/mapper/mapper.py', 'peak/mapper/utils.py', 'peak/mapper/formula_constructor.py', 'peak/mapper/index_var.py'],
     [('query', 'peak/mapper/mapper.py:IRMapper'), ('search loop', 'peak/mapper/mapper.py:external_loop_solve'), ('constraints', 'peak/mapper/mapper.py:SMTMapper')],
     ['IRMapper.solve(..) is None'],
     'explicit enumeration of all bindings, constants and inputs (brute force on integer models) compared with the mapper\'s answer',
     'exhaustive for a catalogue of elements and programs at width 2; one-query cases the solver does not finish in time are left out and counted')

prop('C13', 'Verifying a rewrite rule is exact',
     'verify() of a hand-written or returned rule accepts it exactly when it is correct for every input, every value of the unbound inputs and every behaviour of the black boxes; otherwise it gives inputs '
     'for which element and program really differ. Rules that leave a constant open or give it a word that encodes nothing are refused.',
     ['inputs', 'programs'], 'all bindings of all element / program pairs of the catalogue x constants (all valid words in the thorough tier), including constants on data inputs and black boxes',
     'tests verify two or three rules; that a wrong rule is rejected for every kind of input and output is not sampled',
     ['peak/mapper/mapper.py', 'peak/mapper/utils.py'],
     [('verification', 'peak/mapper/mapper.py:RewriteRule.verify'), ('well-formedness', 'peak/mapper/mapper.py:RewriteRule.__init__')],
     ['RewriteRule(..)', 'RewriteRule.verify()'],
     'exhaustive enumeration of candidate rules, each judged on all inputs by integer models and compared with verify()',
     'exhaustive for a catalogue of elements and programs at width 2; constants per binding capped in the quick tier')

prop('C14', 'A rewrite rule survives being written out and read back',
     'Serializing a rule and reading it back - also through JSON and in another process - gives a rule with the same bindings, constants and types and the same behaviour; different rules are written '
     'differently, writing changes nothing in the rule, and writing what was read gives the same text.',
     ['inputs', 'programs', 'schedules'], 'all bindings of all element / program pairs of the catalogue x constants up to a cap, x all combinations of data inputs given as constants',
     'tests round-trip two rules and compare few fields; the type of one kind of constant or one path form is easily lost',
     ['peak/mapper/mapper.py', 'peak/mapper/utils.py'],
     [('writing', 'peak/mapper/mapper.py:RewriteRule.serialize_bindings'), ('reading', 'peak/mapper/mapper.py:read_serialized_bindings')],
     ['RewriteRule.serialize_bindings()', 'read_serialized_bindings(..)'],
     'exhaustive enumeration of rules, each written, read (in the same and in another process) and executed',
     'exhaustive for a catalogue of elements and programs at width 2; rules over unions by type are not put through JSON (their paths contain types)')

prop('C16', 'The search loop decides exactly',
     'For every exists-forall formula, the counterexample-guided loop returns a choice that holds for all universal values exactly when there is one, whatever the initial vectors; with a limit on the '
     'rounds it either decides correctly or raises, and a limit of at least the number of choices never raises.',
     ['inputs', 'schedules', 'configurations'], 'all truth tables over small existential and universal spaces x initial vectors x round limits',
     'tests run the loop on mapper formulas where any early exit goes unnoticed',
     ['peak/mapper/mapper.py'],
     [('loop', 'peak/mapper/mapper.py:external_loop_solve')],
     ['external_loop_solve(..)'],
     'exhaustive enumeration of all formulas (truth tables) over the bounded spaces, run on the real loop',
     'exhaustive for up to 8 cells; one table per multiset of rows for 16 cells (all tables in the thorough tier)')

prop('C17', 'Searching for a sequence of instructions finds one exactly when one exists',
     'The multi-instruction search returns a program of N instructions of the element exactly when some choice of valid instructions and of connections between program inputs, earlier results and operands '
     'computes the requested function for every input (and every behaviour of black boxes), with either index encoding and either treatment of intermediate results; the program it prints is such a choice.',
     ['programs', 'inputs', 'configurations'], 'all elements x programs of the catalogue x 1 or 2 (3) instructions x configurations, against all connections and instruction words by brute force',
     'tests search for one two-instruction program and never check the absence of one',
     ['peak/mapper/multi.py'],
     [('search', 'peak/mapper/multi.py:Multi')],
     ['Multi(..)(..)', 'the printed program'],
     'explicit enumeration of all connection choices, instruction words and inputs (integer models) compared with the answer and the printed program',
     'exhaustive for a catalogue of elements and programs at width 2, up to 2 (thorough: 3) instructions')

prop('C18', 'Floating-point elements compute their operation in the requested rounding mode',
     'Every element of the floating-point library gives, for every operand, the result its operation has in the format and rounding mode asked for, with its operands in order and of the declared type; whether '
     'the mode is an input or a constant makes no difference, nor does executing it as plain or as rewritten Python. Symbolically it is the black box of that operation. Hardware, where it exists, is the same operation '
     'in the same format. Two requests give the same element exactly when they ask for the same thing.',
     ['inputs', 'configurations'], 'all operations x formats (up to 6 bits) x 5 rounding modes x all operand words x mode as input or constant x interpretations',
     'tests only elaborate two operations in one rounding mode; a wrong mode or operand order shows for few operands, and most elements are never executed',
     ['peak/float.py', 'peak/black_box.py'],
     [('elements with a mode input', 'peak/float.py:gen_unary, gen_binary, gen_binary_bit, fp_fma'), ('elements with a constant mode', 'peak/float.py:const_rm'),
      ('rounding modes', 'peak/float.py:RoudningMode_utils')],
     ['float_lib_gen(e, f, ieee).Add_fc.Py()(rm, a, b)', 'float_lib_gen(..).const_rm(rm).Add_fc', 'RoudningMode_utils(family)', 'the CoreIR of const_rm(RNE).Add_fc / Mul_fc'],
     'exhaustive enumeration of operand words, modes, formats and operations on the real elements against the number system and exact rational arithmetic',
     'exhaustive for small formats; hwtypes FPVector is the reference, itself compared with exact rationals; one known finding (hardware of other 16-bit formats than bfloat16) is listed')

prop('C19', 'The field encoder packs an instruction into its own unambiguous word',
     'For every instruction of a type made of bits, vectors, enumerations with codes, records and unions, the encoder gives the packing of its parts in declaration order, least or most significant part first as asked, '
     'with the declared tags of alternatives (or their rank by name), at the declared position. The reported size is the width of that word: every instruction fits, different instructions have different words, '
     'and the words are the same in every process. Tag declarations that do not give every alternative its tag are refused.',
     ['inputs', 'configurations', 'histories'], 'all instruction types of a bounded grammar x all instructions x both directions x all tag assignments and positions of a bound; several processes',
     'tests encode a few instructions of two enumerations; overlap and negative values need particular codes, neighbours and values, and a word that changes between runs shows in no single run',
     ['peak/bitfield.py'],
     [('packing', 'peak/bitfield.py:encode'), ('widths', 'peak/bitfield.py:size, sumsize'), ('tags', 'peak/bitfield.py:tag, instkey')],
     ['encode(inst, reverse)', 'size(T)', 'sumsize(T)', 'tag({...})(T)'],
     'exhaustive enumeration of types, instructions, tags and positions on the real encoder against an integer model',
     'exhaustive within a bounded grammar; positions of nested parts are not claimed')

prop('C20', 'An IR instruction is the function it was declared with',
     'An instruction added to an IR by an interface and a function is a processing element whose inputs and outputs are exactly the declared ones, in order and with their types, and which computes that function with the '
     'vocabulary of the family it is asked for, in every family and for every input. Instructions and IRs do not influence each other, names stay unique, and refused additions change nothing.',
     ['programs', 'inputs', 'histories'], 'all interfaces of the bound x all inputs x families; all sequences of additions to two IRs up to the bound',
     'tests add one instruction and run it on a few inputs',
     ['peak/ir.py', 'peak/features.py'],
     [('generated elements', 'peak/ir.py:IR.add_peak_instruction'), ('names', 'peak/ir.py:IR.add_instruction')],
     ['IR().instructions[name]', 'input_t / output_t', 'the result of executing the instruction'],
     'exhaustive enumeration of interfaces, inputs and histories of additions on the real code against the declared functions',
     'interfaces up to 3 inputs and 3 outputs, histories of 3 (4) additions')
