"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(d)

SEM="effectful/ops/semantics.py"; SYN="effectful/ops/syntax.py"; TY="effectful/ops/types.py"
RT="effectful/internals/runtime.py"; PN="effectful/internals/product_n.py"; UN="effectful/internals/unification.py"
TU="effectful/internals/tensor_utils.py"; IX="effectful/handlers/indexed.py"; TO="effectful/handlers/torch.py"
JH="effectful/handlers/jax/_handlers.py"; JT="effectful/handlers/jax/_terms.py"; PY="effectful/handlers/pyro.py"
NP="effectful/handlers/numpyro.py"; LC="effectful/handlers/llm/completions.py"; LE="effectful/handlers/llm/encoding.py"
LV="effectful/handlers/llm/evaluation.py"; LT="effectful/handlers/llm/template.py"

prop("C01","Installing handlers is strictly scoped, on every way out",
 "When a block that installs handlers is left, by falling through, returning or raising, the handlers in force are exactly those in force before it was entered, and an exception leaves unchanged. Inside the block every operation handled by the installed set reaches that set, every other operation is handled as before, and neither the installed mapping nor the previously active one is ever modified. Later changes to the mapping the caller passed in do not alter what is in force.",
 ["programs","histories","inputs"],"all interpretations, all nestings of handler/interpreter blocks, all bodies including ones that raise or install further handlers",
 "Tests leave blocks normally or with one or two exceptions at fixed depth; restoration must hold for every body, exception type and nesting.",
 [RT,SEM],[("interpreter","effectful/internals/runtime.py:interpreter"),("handler","effectful/ops/semantics.py:handler"),("get_runtime","effectful/internals/runtime.py:get_runtime")],
 [("active interpretation","the handler map operations dispatch on","effectful/internals/runtime.py:Runtime.interpretation")],["result of any operation call before/after the block"])

prop("C02","An operation call runs exactly its handler, else its default, else a term",
 "Calling an operation runs the handler currently installed for it exactly once, with exactly the positional and keyword arguments of the call, and returns or raises what that handler returned or raised. With no handler of its own the call goes to the handler for all applications if there is one, otherwise to the operation's own default behaviour; a default that declines to handle yields the term of that operation applied to those arguments, and any other exception propagates. A handler that forwards when nothing encloses it reaches the operation's default behaviour.",
 ["programs","inputs"],"all operations, argument lists, keyword arguments and active interpretations",
 "Tests call particular operations under a few fixed handlers; the dispatch rule must hold for every operation, argument shape and handler set.",
 [TY,SEM,RT],[("Operation.__call__","effectful/ops/types.py:Operation.__call__"),("default rule","effectful/ops/types.py:Operation.__default_rule__"),("apply","effectful/ops/types.py:__apply__"),("forward","effectful/ops/semantics.py:fwd")])

prop("C03","Composing two interpretations: union, right precedence, forwarding to the left",
 "The composition of two interpretations handles exactly the operations handled by either; where both handle one, the right one runs, and where only one does, that one runs unchanged. A forward from the right handler runs the left handler's implementation of the same operation, a forward from there reaches whatever enclosed the composition, and a chain of any length is walked one handler per forward. Composition never modifies its inputs, and is associative in its observable behaviour.",
 ["programs","inputs","histories"],"all pairs and longer chains of interpretations, all overlaps of their domains, all forwarding patterns including repeated forwards and none",
 "Tests compose two or three small maps; precedence, union and one-step forwarding must hold for all maps and chain lengths.",
 [SEM,RT],[("coproduct","effectful/ops/semantics.py:coproduct"),("prompt binding","effectful/internals/runtime.py:_set_prompt")])

prop("C04","Forwarding passes the current arguments unless new ones are given",
 "A handler that forwards with no arguments passes on exactly the positional and keyword arguments it was itself called with; forwarding with any arguments passes exactly those. This holds at every depth of a chain of handlers, after earlier forwards with other arguments, and after calls to other operations made in between.",
 ["programs","inputs","histories"],"all handlers, argument lists, chain depths and interleavings of forwards with other operation calls",
 "Tests forward at depth one or two with one or two arguments; the saved arguments live in the interpretation, so the rule depends on the whole nesting.",
 [RT,SEM,TY],[("saving arguments","effectful/internals/runtime.py:_save_args"),("restoring arguments","effectful/internals/runtime.py:_restore_args"),("binding forward","effectful/internals/runtime.py:_set_prompt")])

prop("C05","Evaluation is a structure-preserving map over terms and containers",
 "Evaluating a term evaluates its positional and keyword arguments once each, in order, and calls the term's operation on the results, with every argument in its place and keyword kept. Evaluating a container (tuple, named tuple, list, mapping, default mapping, read-only mapping, or dataclass whose fields are all constructor parameters) yields a container of the same type with each element evaluated in place, keys included; views of a mapping give the set or list of their evaluated elements; other values, sets among them, are returned unchanged. Evaluating under an explicitly given interpretation uses exactly that interpretation and leaves the ambient one as it was.",
 ["inputs","programs"],"all terms and nestings of supported containers, all interpretations",
 "Tests evaluate a handful of shapes; the homomorphism must hold for every nesting and arity.",
 [SEM],[("evaluate and its registrations","effectful/ops/semantics.py:evaluate")])

prop("C06","Building a term renames bound variables and never captures free ones",
 "When a term is built from an operation that binds variables, each bound variable is replaced by one fresh variable consistently in exactly the arguments it is scoped over, and occurrences outside that scope stay free. A free variable of an argument is never captured by a binder, a bound variable never escapes, and the term's operation, argument positions and keywords are otherwise preserved. Substituting, for a variable inside a term, a value that mentions no variable bound inside that term therefore agrees with capture-avoiding substitution.",
 ["inputs","programs"],"all operations with scope annotations, all argument terms including ones mentioning the bound variables elsewhere, all nesting depths",
 "Tests sample lambda and let shapes; hygiene has to hold for every signature and every overlap of names and scopes.",
 [SYN,TY],[("term construction","effectful/ops/syntax.py:defdata"),("scope annotations","effectful/ops/syntax.py:Scoped"),("bound variables per argument","effectful/ops/types.py:Operation.__fvs_rule__")])

prop("C07","The free variables of an expression are exactly the unbound operations in it",
 "The set of free variables reported for an expression contains an operation exactly when it occurs applied in the expression, at any depth and inside any supported container, outside the scope of a binder for it. Computing it neither runs handlers or defaults of the operations involved nor changes the expression or the active interpretation.",
 ["inputs","programs"],"all terms, containers and binding structures",
 "Tests compare a few small terms; the set must be exact for every nesting of binders and containers.",
 [SEM,TY,SYN],[("fvsof","effectful/ops/semantics.py:fvsof"),("per-argument bound variables","effectful/ops/types.py:Operation.__fvs_rule__"),("scope analysis","effectful/ops/syntax.py:Scoped.analyze")])

prop("C08","Structural equality of expressions is an equivalence and runs nothing",
 "Structural comparison is reflexive, symmetric and transitive: terms are equal exactly when they have the same operation and pairwise equal positional and keyword arguments; dataclasses and named tuples need the same type and equal fields; other mappings and sequences compare by contents whatever their type; strings and bytes are atomic; all else, other byte buffers aside, is ordinary equality. Comparing never invokes an operation's default or any installed handler.",
 ["inputs"],"all pairs and triples of expressions, nested arbitrarily, with any handlers installed",
 "Tests check example pairs in one order; symmetry, transitivity and effect-freedom quantify over all pairs and triples.",
 [SYN],[("syntactic_eq and its registrations","effectful/ops/syntax.py:syntactic_eq")])

prop("C09","Every defined operation is distinct, and identity decides equality",
 "Each definition of an operation yields one equal to nothing but itself, even when built from the same function, type or operation and given the same name, with hashing and ordering consistent with that identity and the requested name and the signature of its source kept. Copying an operation gives a fresh one with no default behaviour. Accessing an operation through the same instance or class gives the same operation each time, and different ones for different instances or owners, so handling one never affects another.",
 ["inputs","histories"],"all kinds of definition source, names, and access histories through classes, subclasses and instances",
 "Tests define a few pairs; freshness and stability have to hold over every source kind and access order.",
 [TY],[("Operation.define and registrations","effectful/ops/types.py:Operation.define"),("equality, order and hash","effectful/ops/types.py:Operation.__eq__"),("descriptors","effectful/ops/types.py:Operation.__get__")])

prop("C10","Calling a function term substitutes its arguments for its parameters",
 "Calling a function term with arguments evaluates its body with each positional parameter bound to the positional argument in its place, each keyword parameter to the keyword argument of its name, and nothing else rebound, so it agrees with calling the function the term was made from. Converting a function to a term preserves its meaning for all arguments and its parameter order and names.",
 ["inputs","programs"],"all bodies, arities, mixes of positional and keyword parameters, and argument values including open terms",
 "Tests apply a few arithmetic lambdas; beta-reduction must be right for every body, arity and argument.",
 [SYN],[("deffn","effectful/ops/syntax.py:deffn"),("call of a function term","effectful/ops/syntax.py:_CallableTerm.__call__"),("trace","effectful/ops/syntax.py:trace")])

prop("C11","Handler classes expose the most-derived implementations and only their own",
 "An instance of a handler class is a mapping whose keys are exactly the operations its class or any ancestor declares implementations for, and whose value for each is the most derived such implementation, bound to that instance. Implementations never leak between unrelated classes, defining one class never changes the mapping of another, and state lives on the instance.",
 ["programs","histories"],"all class hierarchies, including diamonds, overriding at several levels, and definition orders",
 "Tests define one or two classes; method-resolution and isolation quantify over hierarchies and definition histories.",
 [SYN],[("ObjectInterpretation","effectful/ops/syntax.py:ObjectInterpretation.__init_subclass__"),("implements","effectful/ops/syntax.py:_ImplementedOperation")])

prop("C12","Number terms compute what Python computes once their variables are known",
 "An arithmetic, ordering or bit expression over symbolic numbers (== and != compare structure, and are not meant) stays symbolic while a variable is unbound, and once all are bound evaluates to what the same Python expression gives on the bound values, including operand order of reflected operators, mixed number types, and raised errors.",
 ["inputs","programs"],"all number operators, operand positions (symbolic left, right or both), nestings and numeric values of mixed types",
 "Tests sample operators with small integers; agreement with Python quantifies over operators, operand kinds and values.",
 [SYN],[("number terms","effectful/ops/syntax.py:_NumberTerm")])

prop("C13","Product interpretations run side by side without interfering",
 "Evaluating under a product of named interpretations gives, for each name, the result of evaluating under that component alone: each component sees its own view of every argument and no other component's values. A component may read the value of another only by asking for it by name; asking for arguments gives them as that component sees them; and each component's value for a given application is computed at most once, however often it is asked for. This is meant for operations some component handles, with no handler installed outside the product.",
 ["programs","inputs"],"all families of interpretations, all terms and containers of arguments, all cross-component requests",
 "Tests use two or three components with scalar arguments; isolation and at-most-once must hold for all.",
 [PN],[("productN","effectful/internals/product_n.py:productN"),("unpacking structures","effectful/internals/product_n.py:_unpack"),("call by need","effectful/internals/product_n.py:CallByNeed"),("map over structures","effectful/internals/product_n.py:map_structure")])

prop("C14","Unification only extends its substitution and makes the two types agree",
 "When unification of a type pattern with a type succeeds, the substitution returned contains every binding it was given, unchanged, binds only type variables of the two types beyond those, and applying it to the pattern, which shares no type variable with the type, yields a type the other is compatible with. When the types cannot be made to agree, or a variable would need two incompatible bindings, it raises a type error; inputs are never modified.",
 ["inputs"],"all pairs of types and collections of types in the supported grammar and all starting substitutions",
 "Tests list type pairs; soundness and extension quantify over all types and starting substitutions.",
 [UN],[("unify and its cases","effectful/internals/unification.py:unify"),("substitute","effectful/internals/unification.py:substitute"),("freetypevars","effectful/internals/unification.py:freetypevars"),("canonicalize","effectful/internals/unification.py:canonicalize")])

prop("C15","The computed type of an expression matches its operations' signatures",
 "The type computed for an expression is the declared return type of its outermost operation, with type variables replaced as determined by the types of its arguments; for a plain value it is the value's type, homogeneous containers included; a container or a subclass may be given by the general class it stands for. Computing it runs no operation's default or handler and does not depend on which handlers are installed, and a term built from the operation is of the term class registered for that type.",
 ["inputs","programs"],"all operations with plain, generic, annotated or missing return types and all arguments",
 "Tests check particular signatures; the rule has to hold for all signatures and argument types.",
 [SEM,TY,UN,SYN],[("typeof","effectful/ops/semantics.py:typeof"),("type rule","effectful/ops/types.py:Operation.__type_rule__"),("nested types of values","effectful/internals/unification.py:nested_type")])

prop("C16","Symbolic indexing of arrays agrees with ordinary indexing",
 "Indexing an array with any mix of integers, slices, ellipsis, new axes, arrays and symbolic dimensions denotes, for every value of the symbolic dimensions in range, what ordinary indexing denotes with those values put in. Shapes reported for the symbolic result agree with the concrete ones, and the original array is not changed.",
 ["inputs"],"all array shapes, index expressions (including ellipsis in any position, negative and out-of-range slices) and assignments of the symbolic dimensions",
 "Tests sample shapes and index tuples; index normalisation must be right for every rank and mixture.",
 [TU,TO,JH,JT],[("index normalisation","effectful/internals/tensor_utils.py:_desugar_tensor_index"),("torch indexing","effectful/handlers/torch.py:torch_getitem"),("jax indexing","effectful/handlers/jax/_handlers.py:jax_getitem")])

prop("C17","Named dimensions bind, unbind and broadcast like explicit ones",
 "Turning named dimensions into positional ones and back is the identity: binding puts them first, in the order asked, keeps all others, and unbinding reverses it. An array function applied to arrays with named dimensions gives, at every setting of those dimensions, what the function gives on the slices selected by that setting. The sizes reported for named dimensions are the sizes of the axes they index, and a dimension used at two different sizes is rejected.",
 ["inputs","programs"],"all arrays, sets and orders of named dimensions, and array functions lifted over them",
 "Tests try a few shapes and one or two dimensions; the laws quantify over ranks, orders and functions.",
 [TO,JH,JT,PY,NP],[("torch bind/unbind/sizesof","effectful/handlers/torch.py:bind_dims"),("jax bind/unbind/sizesof","effectful/handlers/jax/_handlers.py:bind_dims"),("lifting array functions","effectful/handlers/jax/_handlers.py:_register_jax_op")])

prop("C18","Array term operators mean the same operator as on arrays, operands in order",
 "Every operator or method applied to a symbolic array evaluates, once its variables are bound, to the result of the same operator or method with the same operands (in the same order, or by the same keyword) on the array bound; reflected operators keep the original operand order.",
 ["inputs","programs"],"all operators and methods offered by symbolic arrays, operand positions, and array values including negative and mixed-sign ones",
 "Tests try some operators on positive arrays; agreement quantifies over operators, sides and values.",
 [TO,JT],[("torch term operators","effectful/handlers/torch.py:_TensorTerm"),("jax term operators","effectful/handlers/jax/_terms.py:_ArrayTerm")])

prop("C19","Index sets form a join semilattice that gather and conditionals respect",
 "Index sets behave as mappings from names to sets of indices: joining takes unions per name, is commutative, associative and idempotent, and empties vanish. Gathering keeps exactly the named positions of a value, in increasing order whatever order they were given in, and a conditional over indices takes at each position the branch chosen there. The index set reported for a value is exactly its named dimensions at their full range.",
 ["inputs"],"all index sets, values with named dimensions, and case tables",
 "Tests enumerate a few sizes; the algebraic laws and pointwise semantics quantify over all sets and values.",
 [IX],[("IndexSet and union","effectful/handlers/indexed.py:IndexSet"),("gather/cond/cond_n","effectful/handlers/indexed.py:gather"),("indices_of","effectful/handlers/indexed.py:indices_of")])

prop("C20","Pyro distributions survive being made symbolic",
 "Turning a distribution into a symbolic term and evaluating it rebuilds a distribution of the same family with the same parameters, each in its own role, or refuses loudly; renaming batch dimensions and undoing it is the identity and respects negative positions. Log-density, sampling shape and support of a distribution with named batch dimensions are, for families whose operations vectorise, at each setting of those dimensions, those of the distribution with the parameters selected by that setting.",
 ["inputs"],"all supported distribution families, parameter values and shapes, wrapper nestings, and batch-dimension namings",
 "The distribution tests cover sample parameters where swapped or defaulted ones go unnoticed; the role of each parameter must be right for every family and value.",
 [PY],[("distribution embeddings","effectful/handlers/pyro.py:_embed_distribution"),("Naming","effectful/handlers/pyro.py:Naming"),("pyro shim","effectful/handlers/pyro.py:PyroShim")])

prop("C21","NumPyro distributions survive being made symbolic",
 "Each distribution constructor offered for symbolic use builds, once its parameters are known, the distribution of the same family with each parameter in its own role, and turning a concrete distribution into a term and evaluating it gives an equal distribution. Batch and event shapes, log-densities and samples of a distribution with named dimensions agree with the distribution whose parameters are selected at each setting of them.",
 ["inputs"],"all supported distribution families, parameterisations, parameter values and named dimensions",
 "The tests of these embeddings sample a few parameter values; parameter roles must be right in every family.",
 [NP],[("distribution embeddings","effectful/handlers/numpyro.py:_embed_distribution"),("distribution terms","effectful/handlers/numpyro.py:_DistributionTerm")])

prop("C22","Derivative, vmap and jit wrappers only thread named dimensions through",
 "Gradient, Jacobian, Hessian, vectorisation and compilation (jit) of a function on arrays with named dimensions return what the plain transforms return at each setting of those dimensions, passing every positional and keyword argument through unchanged, whatever calls were made before.",
 ["inputs","programs"],"all functions, positional and keyword arguments, and named dimensions",
 "Tests use one-argument functions; argument forwarding and pointwise agreement quantify over all call shapes.",
 [TO,"effectful/handlers/jax/_handlers.py"],[("grad/jacfwd/jacrev/hessian/vmap","effectful/handlers/torch.py:grad"),("reindexing flat results","effectful/handlers/torch.py:_indexed_func_wrapper"),("compilation","effectful/handlers/jax/_handlers.py:jit")])

prop("C23","A prompt renders to its parts in order, losing and duplicating nothing",
 "Rendering a template with argument values gives a list of content parts whose text, read in order, is the template's literal text and the rendered values in their places, and whose non-text parts are those of the values, in the same order. Adjacent text is merged, nothing is dropped, reordered or repeated, and conversions and format specifications are applied to text values as Python formatting would.",
 ["inputs"],"all templates, argument values and encodings, including empty strings and values mixing text and media",
 "Tests render a few templates; the linearisation law quantifies over all interleavings of text and media.",
 [LE,LC,LT],[("content block flattening","effectful/handlers/llm/encoding.py:to_content_blocks"),("rendering messages","effectful/handlers/llm/completions.py:call_user")])

prop("C24","Message history advances by whole exchanges or not at all",
 "After a successful template call the conversation history is the earlier history followed by exactly the messages of that call, in order; a call that fails leaves the history as it was. Retrying after a malformed answer keeps the failed attempts out of the history the caller sees, retries at most the configured number of times, and only for decoding and validation failures; any other error surfaces at once.",
 ["histories","fault_sequences","inputs"],"all sequences of model answers, malformed answers, tool failures and provider errors, and all retry limits",
 "Tests script short conversations; atomicity and retry accounting quantify over every sequence of faults.",
 [LC,LT],[("history handling","effectful/handlers/llm/completions.py:LiteLLMProvider"),("retries","effectful/handlers/llm/completions.py:RetryLLMHandler"),("message appending","effectful/handlers/llm/completions.py:append_message")])

prop("C25","Each tool request gets exactly one answer, from the tool and arguments it names",
 "Every tool request in a model answer is answered by exactly one message carrying that request's identifier and the encoded result of calling the tool of that name with the arguments decoded for its parameters; the loop ends only with an answer that requests no tools. The tools offered are exactly those reachable from the template's scope (the template itself only when declared recursive), without two distinct tools under one name, and a name or argument that does not decode is reported as such, never sent to a tool.",
 ["inputs","histories"],"all tool sets, requests, argument payloads and answer sequences",
 "Tests script one or two tool calls; matching and uniqueness quantify over all scopes and answer sequences.",
 [LC,LT,LE],[("tool call execution","effectful/handlers/llm/completions.py:call_tool"),("tool collection","effectful/handlers/llm/completions.py:collect_tools"),("decoding","effectful/handlers/llm/encoding.py")])

prop("C26","Encoding a value for the model and decoding it back is the identity",
 "For every supported type and every value of it that JSON can express, decoding the encoded value gives back an equal value of that type, through the serialised text the model sees; tuples keep length and order, named tuples and dataclasses their fields. A payload that is not an encoding of the type is rejected with a validation error rather than decoded to something else.",
 ["inputs"],"all supported types, nested arbitrarily, and all their values and malformed payloads",
 "Tests list values per type; the round trip quantifies over nested types and all values.",
 [LE],[("type encodings","effectful/handlers/llm/encoding.py:TypeToPydanticType")])

prop("C27","Evaluated code sees only what it was given and reports only its own errors",
 "Executing model-written code binds its results in the environment supplied, gives it exactly the names of that environment plus the permitted builtins, and under the restricted evaluator refuses forbidden syntax before running anything. Type checking reports exactly the errors lying in the generated region and none from the surrounding context, leaves no files behind, and parsing or compiling has no effect on the environment.",
 ["inputs","programs"],"all code fragments, environments and contexts, including failing and nested ones",
 "Tests run a few snippets; environment isolation and error attribution quantify over all programs.",
 [LV],[("evaluation providers","effectful/handlers/llm/evaluation.py:RestrictedEvalProvider"),("type checking","effectful/handlers/llm/evaluation.py:mypy_type_check"),("source splicing","effectful/handlers/llm/evaluation.py:scan_non_nestable")])

prop("C28","Printing a term names distinct operations distinctly",
 "In the printed form of a term, two occurrences carry the same name exactly when they are the same operation, however many operations share a name, and every operation, argument and keyword appears once, in order; operations not applied count when they stand in lists, tuples or dictionaries. Printing neither runs handlers or defaults nor changes the term.",
 ["inputs"],"all terms, including ones with many operations sharing a name and containers as arguments",
 "Tests print a few terms; injectivity of naming quantifies over all sets of clashing names.",
 [TY],[("Term.__str__","effectful/ops/types.py:Term.__str__")])

prop("C29","Handlers installed in one thread are invisible to every other",
 "Installing, nesting and removing handlers in one thread never changes what operations do in another thread, however their steps interleave, and a new thread starts with no handlers installed.",
 ["schedules"],"all interleavings of handler installation and operation calls across threads",
 "Tests run one schedule of a few threads; isolation quantifies over all interleavings.",
 [RT],[("thread-local runtime","effectful/internals/runtime.py:Runtime")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
