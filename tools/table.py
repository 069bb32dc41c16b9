NOTE = "Every obligation is discharged for all sizes, arguments and values at the enumerated ranks, over the reals; the bounded concrete search adds floating-point behaviour and supplies failing inputs."
prop("C02", TECH, "the closed-form or mechanically differentiated VJP is the postcondition of back-propagating an arbitrary upstream weighting through one application of every operation, run through the real BackPropagate", NOTE)
prop("C03", TECH, "postconditions (shape, every element) of element-wise operations, comparisons, Equals and broadcasting arithmetic", NOTE)
prop("C04", TECH, "postconditions of MatMul, Dot and Transpose for symbolic sizes", NOTE)
prop("C05", TECH, "postconditions of whole-tensor and along-dimension reductions", NOTE)
prop("C06", TECH, "postconditions of accessors, shape modifiers and constructors", NOTE)
prop("C07", TECH, "postcondition of the gradient delivered to an expanded operand", NOTE)
GRAPHS = "graphs: when the unbounded proof of BackPropagate's body (bp.go) does not recognise a rewritten walk, the enumerated graphs (every DAG of up to five tensors, ladders of 6, 9 and 12) and the concrete search on graphs of hundreds of tensors stand in for it; on the unchanged tree the unbounded proof goes through, and they only run in addition"
BPASM = ["the gradient graph is finite and acyclic: an operation's edges lead to tensors made before it (established by the postcondition of every operation, edgesAreOwn)"]
prop("C01", TECH, "BackPropagate's real body and its helpers carry contracts (the walk lists every reachable tracked tensor once, operands first; the sweep applies each backward rule once, to a complete gradient; each gradient ends as its start value plus what its consumers contribute) proved over an unbounded heap of gradient contexts, with the loop invariants and the ranking argument discharged by z3; the rules themselves are the contracts of the operations (C02, C07)", "Proved for every finite graph, all sizes, values and rules, over the reals.", assumptions=BPASM, bounded=[GRAPHS])
prop("C08", TECH, "postconditions on the tracked/spent/gradient state of every operation result, of BackPropagate on graphs and of ResetGradContext", NOTE, assumptions=BPASM, bounded=[GRAPHS])
prop("C09", TECH, "no-panic obligations and error exactly outside the precondition for every public entry point", NOTE)
prop("C10", TECH, "frame conditions (every store goes to memory the call made, or to a gradient context in BackPropagate) and absence of caller-owned slices in results and backward closures", NOTE)
prop("C11", TECH, "one training step FC, activation, loss, BackPropagate, SGD.Update, ResetGradContext(true) verified from an arbitrary state of the form it re-establishes (induction over steps), and the refusal of an update without reset", NOTE, assumptions=["with BCE and CE, Sigmoid, Tanh and Softmax enter the step by their contract (verified by the activation units); with MSE by their body"])
prop("C12", TECH, "postconditions of MSE, BCE and CE Compute", NOTE)
prop("C13", TECH, "postcondition of back-propagating through each loss, for leaf and computed predictions", NOTE)
prop("C14", TECH, "postconditions of the activations' Forward", NOTE)
prop("C15", TECH, "postcondition of back-propagating an arbitrary upstream gradient through each activation, to a leaf and on to its source", NOTE)
prop("C16", TECH, "postconditions of FC.Forward, Weights and back-propagation through the layer", NOTE)
prop("C17", TECH, "postcondition of SGD.Update and frame (only the caller's variable is written)", NOTE)
prop("C18", TECH, "postconditions of initializers and random constructors: every position holds its own draw from the configured distribution", NOTE, assumptions=["gonum's distributions sample what they are configured to"], bounded=["distribution shape (mean, spread, support) of the drawn values is sampled"])
prop("C19", TECH, "postconditions of Accuracy after 0 to 3 calls and an inductive step from an arbitrary accumulated state", NOTE)
prop("C20", TECH, "frame conditions: forward computations store only to memory they made, and BackPropagate only to contexts of its graph, so concurrent calls share reads only", NOTE, assumptions=["gonum's global source is locked", "memory no call writes is race-free to read; package-level variables are not written"], bounded=["race-detector runs of concurrent programs"])
