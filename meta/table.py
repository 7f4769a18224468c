IR = "normal-form comparison of value-numbered LLVM IR "
AI = "abstract interpretation of LLVM IR (shape-exact memory, polynomial values) over enumerated operation orders"
TABLE = [
 dict(id="P01", title="Operation results equal the underlying function on plain numbers",
  statement="For every mathematical function and operator the library offers, applied to active variables, expressions and plain numbers in any combination, the value obtained is the value of that function on the operands' values. This holds on every branch (signs, zeros, ties of rounding, infinities, NaN) and for every active type and precision.",
  over=["inputs", "programs", "configurations"], quant="all operand values; every operation; every combination of operand kinds; forward, adjoint and float types; all build configurations",
  why="Tests evaluate each function at one to three values on one operand kind; a wrong branch, a swapped scalar operand overload or an altered constant away from those values goes unseen.",
  files=["src/XAD/UnaryOperators.hpp", "src/XAD/BinaryOperators.hpp", "src/XAD/UnaryFunctors.hpp", "src/XAD/UnaryMathFunctors.hpp", "src/XAD/BinaryFunctors.hpp", "src/XAD/BinaryMathFunctors.hpp", "src/XAD/StdCompatibility.hpp", "src/XAD/MathFunctions.hpp"],
  mech=[("functor call operators", "src/XAD/*Functors.hpp operator()"), ("value evaluation of expression nodes", "src/XAD/BinaryExpr.hpp, UnaryExpr.hpp getValue")],
  tech=IR + "against reference terms, per guard region", note="Each operation x operand kinds is one obligation: the leaf value term of every guard region selected by witnesses equals the reference by algebraic normal form (exact library function identity for libm calls), so it holds for all operands of that region; regions no witness selects are not covered."),
 dict(id="P02", title="Adjoint mode propagates the exact partial derivatives",
  statement="When a result is computed from recorded variables, the multipliers that reverse accumulation applies to each of them equal the mathematical partial derivatives of the operation at the operands' values, summed over repeated uses and composed by the chain rule. This holds for every operation, operand kind and operand value where the derivative is defined.",
  over=["inputs", "programs", "configurations"], quant="all operand values in the domain of differentiability; every operation and operand kind; composed expressions",
  why="Each derivative is tested at a few points; a derivative formula that is wrong in another region (negative arguments, large quotients, negative exponents) passes them.",
  files=["src/XAD/UnaryMathFunctors.hpp", "src/XAD/BinaryMathFunctors.hpp", "src/XAD/UnaryExpr.hpp", "src/XAD/BinaryExpr.hpp", "src/XAD/BinaryDerivativeImpl.hpp", "src/XAD/UnaryOperators.hpp"],
  mech=[("derivative functors", "src/XAD/*Functors.hpp derivative, derivative_a, derivative_b"), ("multiplier propagation", "src/XAD/BinaryExpr.hpp, UnaryExpr.hpp calc_derivatives")],
  tech=IR + "of recorded multipliers against symbolic derivatives", note="The recorded statement of every operation x operand kinds is composed symbolically and compared with the symbolic derivative of the reference value in every guard region selected by witnesses; points of non-differentiability are excluded."),
 dict(id="P03", title="Forward mode propagates the exact directional derivative",
  statement="In forward mode the derivative of every result equals the sum over operands of partial derivative times the operand's derivative, for every operation, operand kind and operand value where the derivative is defined. Both precisions agree with the same formula.",
  over=["inputs", "programs", "configurations"], quant="all operand values and tangents; every operation and operand kind",
  why="Forward formulas are tested at a few points with unit tangents; terms that vanish there are unconstrained.",
  files=["src/XAD/UnaryMathFunctors.hpp", "src/XAD/BinaryMathFunctors.hpp", "src/XAD/UnaryExpr.hpp", "src/XAD/BinaryExpr.hpp", "src/XAD/BinaryDerivativeImpl.hpp", "src/XAD/Expression.hpp"],
  mech=[("tangent evaluation of expression nodes", "src/XAD/BinaryExpr.hpp, UnaryExpr.hpp derivative()")],
  tech=IR + "of tangent terms against symbolic derivatives", note="As P02, for the derivative field of forward types with symbolic tangents."),
 dict(id="P04", title="Recording is complete, minimal and well formed",
  statement="Computing an active result records exactly one statement per materialised result that depends on a recorded variable, referring only to recorded and still owned variables, and never refers to passive ones. A result none of whose operands is recorded leaves the tape untouched, and a result that depends on a recorded operand is itself recorded.",
  over=["inputs", "programs", "configurations"], quant="every operation; every subset of operands being recorded; all operand values",
  why="Tests nearly always record all operands; mixtures of recorded and passive operands inside one expression are barely sampled.",
  files=["src/XAD/Literals.hpp", "src/XAD/BinaryExpr.hpp", "src/XAD/UnaryExpr.hpp", "src/XAD/Tape.hpp"],
  mech=[("recording of expressions", "src/XAD/Literals.hpp AReal(Expression), operator="), ("shouldRecord", "src/XAD/BinaryExpr.hpp, UnaryExpr.hpp, Literals.hpp")],
  tech="event-sequence analysis of normalised LLVM IR under every recorded/passive subset", note="All subsets of recorded operands for every operation are enumerated symbolically; the guarded tape events are interpreted as linear maps over slots."),
 dict(id="P05", title="Nested active types give the exact second-order derivatives",
  statement="With doubly nested active types every operation propagates first derivatives and mixed second derivatives exactly: each of the value, the two first-order components and the second-order component is the corresponding mathematical quantity. This holds for forward-over-forward and forward-over-adjoint nesting.",
  over=["inputs", "programs", "configurations"], quant="all operand values and tangents; every operation and operand kind; nestings",
  why="Second-order results are tested for a handful of functions at single points.",
  files=["src/XAD/UnaryMathFunctors.hpp", "src/XAD/BinaryMathFunctors.hpp", "src/XAD/UnaryExpr.hpp", "src/XAD/BinaryExpr.hpp", "src/XAD/Literals.hpp", "src/XAD/Traits.hpp", "src/XAD/Expression.hpp"],
  mech=[("functors instantiated on active scalars", "src/XAD/*MathFunctors.hpp"), ("nested value/derivative access", "src/XAD/Literals.hpp")],
  tech=IR + "of all derivative components against second symbolic derivatives", note="As P02/P03, on nested types."),
 dict(id="P06", title="Assignment, compound assignment and copies keep value and derivative",
  statement="Any sequence of constructing, copying, moving, assigning, compound-assigning, incrementing and swapping active variables - including self-assignment and aliasing of source and destination - leaves each variable with the value and the derivative of the same program on plain mathematics. Variables not written by a step keep both.",
  over=["inputs", "programs", "configurations"], quant="all operand values; short programs over all assignment forms, aliasing patterns and recorded/passive states",
  why="Tests check single assignments of fully recorded, distinct variables; aliasing with a partly recorded right-hand side is not sampled.",
  files=["src/XAD/Literals.hpp", "src/XAD/Expression.hpp"],
  mech=[("assignment operators", "src/XAD/Literals.hpp ADTypeBase, AReal, FReal")],
  tech="chain-rule interpretation of guarded tape events in normalised LLVM IR", note="Each program is one obligation, decided for all operand values and every subset of recorded variables."),
 dict(id="P07", title="Every derivative slot has exactly one owner until released exactly once",
  statement="At every point each slot taken from the tape by active variables is owned by exactly one live variable, and it is given back exactly once, when its owner dies or is replaced, and never while another variable still refers to it. Copies get slots of their own and moved-from variables give theirs up.",
  over=["programs", "histories", "configurations"], quant="every construction, copy, move, assignment, swap and destruction; every subset of recorded variables; both slot management configurations",
  why="Double release or sharing only shows as wrong derivatives many operations later; tests count variables in a few scripted scenarios.",
  files=["src/XAD/Literals.hpp", "src/XAD/Tape.hpp"],
  mech=[("constructors, assignment and destructor", "src/XAD/Literals.hpp AReal"), ("registerVariable/unregisterVariable", "src/XAD/Tape.hpp")],
  tech="typestate (ownership) analysis of tape events in normalised LLVM IR", note="Ownership state of every slot is tracked through all programs of the family under every recorded/passive subset."),
 dict(id="P08", title="Comparisons, classification and conversions act on values alone",
  statement="Comparing, classifying, converting and hashing active variables and expressions gives exactly what the same expression gives on their values, for all operand kinds and all values including NaN, infinities and signed zeros. None of these operations records anything.",
  over=["inputs", "programs", "configurations"], quant="all operand values; all comparison, classification, rounding-to-integer, conversion and hash operations; all operand kinds",
  why="Tests compare a few ordinary values; operand order mix-ups and NaN behaviour are not sampled across the operand-kind overloads.",
  files=["src/XAD/BinaryOperators.hpp", "src/XAD/BinaryOperatorMacros.hpp", "src/XAD/UnaryOperators.hpp", "src/XAD/UnaryOperatorMacros.hpp", "src/XAD/Expression.hpp", "src/XAD/StdCompatibility.hpp"],
  mech=[("comparison operator macros", "src/XAD/BinaryOperatorMacros.hpp"), ("classification function macros", "src/XAD/UnaryOperatorMacros.hpp"), ("std overloads and hash", "src/XAD/StdCompatibility.hpp")],
  tech="equivalence of normalised LLVM IR terms with the plain-number program", note="Nearly all obligations are discharged by term identity, i.e. for all operand values."),
 dict(id="P12", title="computeAdjoints gives every variable its exact adjoint",
  statement="After a recording, setting derivatives and computing adjoints leaves in every registered variable the derivative that reverse accumulation over all recorded statements defines, for any number and shape of statements, any order of creation and destruction of the variables in between, and repeated sweeps. A sweep with no derivatives set is refused and nothing outside the tape's storage is ever touched.",
  over=["programs", "histories", "configurations"], quant="statement graphs (fan-in, reuse, overwriting), histories of registering, dropping, seeding, sweeping; values symbolic; scalar types including nested; both slot managements; storage chunk sizes",
  why="Errors at storage chunk boundaries, with dropped intermediate variables, late registrations or exactly zero adjoints need combinations that sampled programs do not reach; chunks hold millions of entries in tests.",
  files=["src/Tape.cpp", "src/XAD/Tape.hpp", "src/XAD/ChunkContainer.hpp", "src/XAD/TapeContainer.hpp"],
  mech=[("reverse sweep", "src/Tape.cpp computeAdjointsTo, computeAdjointsToImpl, initDerivatives, derivative"), ("recording", "src/XAD/Tape.hpp pushRhs, pushLhs, pushAll, registerVariable")],
  tech=AI, note="Shape-exact abstract states over enumerated operation words (all words up to the length stated in the evidence) and structured history families; the values are symbolic, so each history is decided for all multipliers and seeds. Lengths, numbers of variables and chunk sizes are bounded as listed in the evidence."),
 dict(id="P13", title="Positions, rollback and reset affect exactly what lies behind them",
  statement="Rolling adjoints back to a recorded position and resetting the tape to it, in any order and repeatedly, gives the same derivatives as one full sweep; derivatives of variables known at the position survive clearing behind it, and recording can continue after a reset as if the part behind the position had never been recorded.",
  over=["programs", "histories", "configurations"], quant="every position of a recording; orders of computeAdjointsTo, clearDerivativesAfter, resetTo and further recording; both slot managements; storage chunk sizes",
  why="Tests use one position in the middle of one short recording; positions at chunk boundaries, repeated rollbacks and slots reused behind the position are not exercised.",
  files=["src/Tape.cpp", "src/XAD/Tape.hpp", "src/XAD/ChunkContainer.hpp"],
  mech=[("positions", "src/Tape.cpp getPosition, computeAdjointsTo, clearDerivativesAfter, resetTo")],
  tech=AI, note="As P12, with positions at every statement of the recordings of the families."),
 dict(id="P14", title="New recordings and clearing leave no trace of what was recorded before",
  statement="After newRecording, clearDerivatives or clearAll, what was recorded or accumulated before has no influence on later derivatives; registered variables stay registered through a new recording. A sweep without newly set derivatives is refused.",
  over=["programs", "histories", "configurations"], quant="histories mixing recordings, restarts and clearing in any order; both slot managements; storage chunk sizes",
  why="Stale derivatives or statements only show after particular sequences (sweep, restart, register more, sweep), which tests exercise in one or two orders.",
  files=["src/Tape.cpp", "src/XAD/Tape.hpp", "src/XAD/ChunkContainer.hpp"],
  mech=[("restarts", "src/Tape.cpp newRecording, clearAll, clearDerivatives, foldSubrecordings, initDerivatives")],
  tech=AI, note="As P12, over restart operations."),
 dict(id="P15", title="Checkpoint callbacks and nested recordings compose with the sweep",
  statement="Each inserted checkpoint callback is invoked exactly once per sweep over it, in reverse order of insertion, when the adjoints of everything recorded behind it have been accumulated; the adjoints it increments take part in the rest of the sweep. Nested recordings inside a callback compute their own adjoints and leave the enclosing recording unchanged, and callbacks handed to the tape are destroyed exactly once.",
  over=["programs", "histories", "configurations"], quant="numbers and positions of checkpoints; nesting depths; statement counts; orders of variable destruction; rollback between checkpoints; both slot managements",
  why="Tests have one or two checkpoints with all variables alive; interplay of nested slots, dropped intermediates and several checkpoints is unsampled.",
  files=["src/Tape.cpp", "src/XAD/Tape.hpp", "src/XAD/CheckpointCallback.hpp"],
  mech=[("checkpoint sweep", "src/Tape.cpp computeAdjointsTo, insertCallback, incrementAdjoint, getAndResetOutputAdjoint"), ("nested recordings", "src/Tape.cpp newNestedRecording, endNestedRecording; src/XAD/Tape.hpp ScopedNestedRecording"), ("callback ownership", "src/XAD/Tape.hpp pushCallback, popCallback, ~Tape")],
  tech=AI, note="Structured families of checkpointed programs (layouts, nesting depth, order of destruction), values symbolic."),
 dict(id="P18", title="Slots of live variables never clash and free slots are reused",
  statement="At any point of any history of creating and destroying variables, a newly registered variable gets a slot no live variable has, the variable count equals the live variables, and every live variable's derivative is accessible. With slot reuse, the free slots kept are exactly the gaps between live slots and no new slot is opened while a gap exists.",
  over=["programs", "histories", "configurations"], quant="all sequences, of any length, of registering and unregistering (and newRecording, clearAll, rollback, resetTo) with a bounded number of simultaneously live variables",
  why="The free-range list has dozens of cases (extend, merge, split at ends, iterator caching); tests walk a few sequences, whereas a clash shows only as a wrong derivative elsewhere.",
  files=["src/Tape.cpp", "src/XAD/Tape.hpp", "src/XAD/ReusableRange.hpp"],
  mech=[("slot allocation", "src/XAD/Tape.hpp registerVariable, unregisterVariable; src/Tape.cpp registerVariableReuseSlots, unregisterVariableReuseSlots"), ("ranges", "src/XAD/ReusableRange.hpp")],
  tech="least fixpoint of an abstract interpretation of LLVM IR (canonical shape-exact tape states)", note="The reachable abstract states are computed to the fixpoint, so histories of every length are covered; bounded is only the number of simultaneously live variables (evidence)."),
 dict(id="P09", title="Complex numbers of active types follow complex calculus",
  statement="Arithmetic, comparison, mathematical functions, powers, polar construction, part access and assignment of std::complex over active types give, for finite operands in any mix of complex, real, expression and plain operands, the value of the complex function and, for real and imaginary part, its exact derivatives with respect to every real and imaginary part that entered - also on the axes and at zero wherever the function is differentiable there.",
  over=["inputs", "programs", "configurations"], quant="all finite operand values off branch points; every operation; every mix of operand kinds; aliasing of an operand with the number's own parts; every subset of recorded parts; forward, adjoint and nested types",
  why="Complex functions are tested at single points in one quadrant, nearly always for values only; special-case branches returning constants silently lose derivatives.",
  files=["src/XAD/Complex.hpp"],
  mech=[("arithmetic and compound assignment", "src/XAD/Complex.hpp complex<ADTypeBase> operators"), ("functions with special cases", "src/XAD/Complex.hpp detail::*_impl")],
  tech=IR + "of real and imaginary parts, recorded statements and tangents against complex calculus", note="Arithmetic is decided by algebraic normal form per guard region; functions with branches and powers are compared leaf by leaf at witnesses (all quadrants, axes, guard boundaries), counted separately; infinite and NaN operands and cancellation (rounding) are not covered."),
 dict(id="P10", title="Threads and tapes are isolated; one active tape per thread",
  statement="At most one tape is active per thread, activating a second one is refused with an exception that leaves everything as it was, and only operations on the thread's own active tape change that tape. Threads using their own tapes and variables never share mutable state through the library, so concurrent use on separate tapes is free of data races.",
  over=["schedules", "histories", "programs"], quant="all interleavings of operations of threads with separate objects; all orders of creating, activating, moving and destroying tapes; all operations of the library",
  why="A hidden shared static or a lost thread-local qualifier only fails under rare interleavings; tests run a thread or two with fixed orders.",
  files=["src/XAD/Tape.hpp", "src/Tape.cpp", "src/XAD/ChunkContainer.hpp", "src/XAD/Literals.hpp", "src/XAD/Macros.hpp", "src/XAD/Config.hpp.in", "src/XAD/StdCompatibility.hpp"],
  mech=[("active tape", "src/XAD/Tape.hpp activate, deactivate, setActive, getActive"), ("thread-local storage", "src/Tape.cpp active_tape_; src/XAD/Macros.hpp")],
  tech="shared-state effect analysis over the call graph of un-inlined LLVM IR; least fixpoint of abstract tape states of two threads", note="Effects: every write in a program that uses every operation of the library (double, float, nested types) is classified; no mutable object shared between threads means no data race for threads with separate objects, whatever the schedule. States: fixpoint over two tapes and two threads, histories of any length."),
 dict(id="P16", title="Moving a tape carries everything over and leaves an empty husk",
  statement="A tape constructed or assigned from another has exactly its recording, derivatives, variables, free slots, checkpoints and callbacks, and takes over its being active; what the target held before is released exactly once. The tape moved from can be destroyed or assigned to at any time without any effect on the new one.",
  over=["histories", "configurations"], quant="states of source and target (recorded, swept, checkpointed, nested, cleared), moment of destroying the source, activation, further use of the target; both slot managements; scalar types",
  why="Member-wise moves go wrong only for states with free slots, nested recordings, owned callbacks or activity combined, and show only on later use or destruction.",
  files=["src/Tape.cpp", "src/XAD/Tape.hpp", "src/XAD/ChunkContainer.hpp"],
  mech=[("move operations", "src/Tape.cpp Tape(Tape&&), operator=(Tape&&), takeOver; src/XAD/ChunkContainer.hpp moves and swap")],
  tech=AI, note="Families of histories over kind of source and target, activation, move construction and assignment, early or late destruction; values symbolic."),
 dict(id="P19", title="Jacobian and Hessian drivers return the exact derivative matrices",
  statement="computeJacobian and computeHessian, in adjoint and forward form, return for every number of variables and functions the matrix of first or second partial derivatives at the given point, in documented orientation, whether the matrix is returned or written through iterators. They refuse matrices of unsuitable size and leave the given or active tape as they found it.",
  over=["inputs", "programs", "configurations"], quant="all input values; numbers of inputs and outputs including none; functions that ignore, reuse, pass through or overwrite arguments; with and without a tape given; scalar types; slot managements",
  why="Tests use a few functions with two to four variables, square shapes, fixed values; transposition, stale adjoints and tape side effects hide there.",
  files=["src/XAD/Jacobian.hpp", "src/XAD/Hessian.hpp", "src/XAD/TypeTraits.hpp"],
  mech=[("jacobian", "src/XAD/Jacobian.hpp computeJacobian"), ("hessian", "src/XAD/Hessian.hpp computeHessian")],
  tech=AI, note="Polynomial functions with symbolic inputs: each case decides all input values. Numbers of variables and functions and the function forms are enumerated (evidence)."),
 dict(id="P20", title="Active types mix and behave like plain numbers for the type system",
  statement="Every operator and mathematical function of the library accepts every combination of active variables, constants, expressions and plain arithmetic types that the plain function accepts and yields the active type's expression (or the plain predicate type); traits, limits, common types and conversions describe the types truthfully; programs that would silently lose derivatives (mixing different active types, narrowing to a plain number, assigning to temporaries or constants) are refused by the compiler; every header compiles alone and in any order in every supported language standard and the library links when used from several units.",
  over=["programs", "configurations"], quant="every overload x operand kind x active type (first order, nested, float); language standards; two compilers; build configurations",
  why="A test only instantiates the overloads it happens to call; an ambiguous, missing or wrongly deduced overload and an accepted unsound program never show up in a test run.",
  files=["src/XAD/BinaryOperators.hpp", "src/XAD/BinaryOperatorMacros.hpp", "src/XAD/UnaryOperators.hpp", "src/XAD/UnaryOperatorMacros.hpp", "src/XAD/Traits.hpp", "src/XAD/TypeTraits.hpp", "src/XAD/StdCompatibility.hpp", "src/XAD/Interface.hpp", "src/XAD/Literals.hpp"],
  mech=[("overload sets", "src/XAD/BinaryOperatorMacros.hpp, UnaryOperatorMacros.hpp, BinaryOperators.hpp, UnaryOperators.hpp"), ("traits", "src/XAD/Traits.hpp, StdCompatibility.hpp, TypeTraits.hpp"), ("modes", "src/XAD/Interface.hpp")],
  tech="type-level witnesses (static assertions) and compile-fail pairs over generated overload matrices", note="The matrix of overloads and operand kinds is enumerated completely (evidence lists counts); the list of programs to be refused is fixed, each next to an accepted twin."),
 dict(id="P21", title="Functions declared not to throw and destructors never terminate",
  statement="No sequence of operations on tapes and variables lets a library exception escape from a destructor or from a function declared noexcept; the process is never terminated by the library.",
  over=["histories", "programs"], quant="all functions of the library that may not throw; all states they may be called in",
  why="An exception on a path only reached in an unusual state (a second active tape, an unregistered variable) ends the process; tests cannot enumerate call sites and states.",
  files=["src/XAD/Tape.hpp", "src/Tape.cpp", "src/XAD/Literals.hpp", "src/XAD/ChunkContainer.hpp", "src/XAD/Exceptions.hpp"],
  mech=[("noexcept members and destructors", "src/XAD/Literals.hpp, src/XAD/Tape.hpp, src/XAD/ChunkContainer.hpp")],
  tech="exception-escape analysis: least fixpoint of throw sets over the call graph of un-inlined LLVM IR", note="Library exceptions only: exhaustion of memory is outside. Guards of members of Tape are decided by the state fixpoint of P10."),
 dict(id="P11", title="Requests that cannot be met are refused and change nothing",
  statement="Accessing derivatives of slots that do not exist, computing adjoints without derivatives set, taking callbacks that were never pushed and asking for the derivative of a variable without an active tape raise the documented exceptions, at any point of any history, and everything continues as if the request had not been made. When a checkpoint callback throws, the exception reaches the caller and the tape can be destroyed or cleared for reuse.",
  over=["histories", "faults", "configurations"], quant="every erroneous request in every state reached by the histories; exceptions thrown from callbacks at any checkpoint; with and without assertions; both slot managements",
  why="Tests request each error once in one state and rarely continue afterwards; a request that marks derivatives initialised or grows storage before refusing goes unseen.",
  files=["src/Tape.cpp", "src/XAD/Tape.hpp", "src/XAD/Literals.hpp", "src/XAD/Exceptions.hpp"],
  mech=[("guards", "src/Tape.cpp derivative, computeAdjoints, incrementAdjoint, getAndResetOutputAdjoint, getLastCallback, popCallback; src/XAD/Literals.hpp derivative")],
  tech=AI, note="All requests are made after every operation of the histories (families of P12-P15 sampled, all operation words of length 2, thrown callbacks)."),
 dict(id="P17", title="The storage container behaves as a plain sequence",
  statement="After any sequence of push_back, emplace_back, append, resize, assign, clear, reserve, uninitialized_extend and moves, a ChunkContainer holds exactly the elements a plain sequence would, at stable indices, through operator[], iterators and chunks. Every element is constructed and destroyed exactly once, all memory is released, nothing outside the chunks is touched, and a failing allocation is reported without losing elements.",
  over=["histories", "inputs", "faults", "configurations"], quant="operation sequences of any length up to a bound on the number of elements; all contents; element types with and without destructors; chunk sizes; failing allocations",
  why="Default chunks hold millions of elements, so tests hardly reach chunk boundaries, where off-by-one errors corrupt the tape.",
  files=["src/XAD/ChunkContainer.hpp"],
  mech=[("chunked storage", "src/XAD/ChunkContainer.hpp ChunkContainer")],
  tech="least fixpoint of an abstract interpretation of LLVM IR (canonical shape-exact container states)", note="Fixpoint over all container states up to the stated number of elements and small chunk sizes, elements symbolic; histories of any length."),
]
NA = []
