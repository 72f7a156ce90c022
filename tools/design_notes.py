"""Notes for DESIGN.md, per property: what the exploration reaches, and false alarms corrected on the way."""
REACH = {}
FALSE = {
"C04": ["parameters of type float32 are saved as their decimal value: the harness now compares numbers, not types",
        "a custom gate named `I` clashed with the name of sympy's imaginary unit in the harness's own evaluator"],
"C05": ["`Circuit + MultiPhaseOperation` is not supported by the interface; the long programs wrap the operation in a circuit"],
"C06": ["the first model of the RZ rule dropped the rule's own phase convention"],
"C08": ["sympy treats column slices with a step differently from numpy; those writes were taken out", "keys for zero outcomes are allowed to be absent",
        "in-place edits of the array returned by `amplitudes` bypass the object and are not claimed"],
"C14": ["terms with coefficient zero have no entry in operators; the alphabet avoids them"],
"C20": ["free symbols at time 0 vanish from the expressions; the harness binds only symbols that are present"],
"C21": ["list-valued parameters are outside the documented types"],
"C22": ["preprocessors may be run once or once per evaluation; both are accepted"],
"C24": ["the harness passed integer initial parameters to scipy and misnamed the gradient argument of one double"],
"C25": ["the text of an OptimizeResult is formatted by scipy and not compared", "a shape such as (0, 2) cannot be told from (0,) once nested lists are written; not claimed"],
"C27": ["PyPy prints complex numbers with 12 digits; texts are compared to that precision"],
"C30": ["interaction operators with foreign kinds of tensors, or with integer tensors, are outside the interface",
        "a fix that negated missing tensors in differences (bf67c1a) contradicts an existing test and was dropped: recorded as a finding instead"],
"C34": ["networkx's check of the random source's type rejected the harness's replacement; it is now a subclass"],
"C35": ["sympy's subs and evalf disagree on the branch of sqrt(x**2); the reference evaluates the tree itself"],
"C36": ["create_object ignores arguments a function does not take, so a supposed fix (2bf65bb) was reverted", "the harness compared numbers of samples for tracked backends whose step never passes them"],
"C37": ["numpy bools were compared by identity in the harness", "the draw limit was too small for three qubits",
        "between 1e-11 and 1e-3 numpy's relative tolerance decides; not claimed"],
"C38": ["arrays that were read lazily stay in memory after load(); not claimed"],
"C39": ["a fix that compared the dimensions of frames of one operator contradicts an existing test and was taken back (4d85b94)"],
}
CAUGHT = {}
