C["C01"] = ("proof", "interpreter, handler and coproduct verified for every mapping, body and exit; thread-local storage and the context-manager protocol are modelled. Bounded: random nestings on the real code.")
C["C02"] = ("proof", "Operation.__call__, __default_rule__ and the default of __apply__ verified for all operations, arguments and interpretations, except keyword arguments named self/op (known finding). Bounded: random handler programs.")
C["C03"] = ("proof", "coproduct and _set_prompt verified pointwise for arbitrary interpretations and operations. Associativity and long chains follow per link; the whole chain is evaluated only on generated programs (bounded).")
C["C04"] = ("proof", "_save_args, _restore_args and the argument capture of Operation.__call__ verified for all arguments; their composition over whole chains is evaluated on generated programs (bounded).")

for _i in "C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29".split():
    C[_i] = ("exploration", "contracts on the real functions, evaluated on the running code over generated inputs (bounded)")
C["C05"] = ("proof", "interpretation of the term evaluator verified for terms, sequences, mappings, views, dataclasses and leaves of any size, with the recursive call by its own contract. Bounded: random terms on the real code.")
C["C12"] = ("proof", "every operator, reflected operator, unary operator, attribute and conversion of the symbolic numbers verified to build or evaluate the operation it stands for. Bounded: values of all numeric types against Python.")
C["C18"] = ("proof", "every operator and method of the symbolic torch and jax arrays, indexing and iteration verified to build the operation it stands for. Bounded: values against torch and jax.")
C["C08"] = ("proof", "syntactic_eq and the terms' __eq__ verified for terms, mappings, sequences, dataclasses and other values of any size (both directions, nothing run), the recursive comparison by its own contract. Bounded: random values and instances on the real code.")
C["C23"] = ("proof", "call_user and to_content_blocks verified for every template, value and mix of text and media, by loop invariants and induction on the value; the formatting of one value, JSON text of leaves and recognition of content blocks are assumed, and checked on the running code (bounded).")
C["C24"] = ("proof", "append_message, the template call, requests, retries, failing tools and their histories verified by loop invariants for any number of attempts and rounds; external client and validation are assumed contracts. Bounded: scripted conversations with faults.")
C["C28"] = ("proof", "naming of operations (injective and stable, for every earlier state), applications and parts of every shape verified; that evaluate visits every application is its contract (C05). Bounded: random terms.")
C["C07"] = ("proof", "fvsof verified for expressions of any size by induction over the contract of evaluate; which variables an argument's scope binds (__fvs_rule__) is assumed there and checked on the running code (bounded).")
C["C10"] = ("proof", "calling a function term, and converting a function to one (trace), verified for all bodies, signatures, parameters and arguments; that a user function applied to terms builds the term of its result is an assumption on the function (it is parametric), and inspect's BoundArguments is assumed; both are also compared on generated functions (bounded)")
C["C13"] = ("exploration", "call-by-need, unpacking and the views of values verified for all inputs; productN as a whole is evaluated on generated programs (bounded)")
C["C25"] = ("exploration", "the tool loop (asking the model), calling a tool and collecting the tools of a context verified for all requests and contexts; decoding arguments and readers of plain values are evaluated on generated scopes and payloads (bounded)")
C["C06"] = ("proof", "defdata (renaming, scope of each renaming, order and placement of arguments) and Scoped.analyze verified for every operation, arguments and nesting; infer_annotations and the binding of arguments to parameters by inspect are assumed, and checked on the running code (bounded).")
C["C09"] = ("proof", "construction, equality, hashing, every kind of definition, class-method operations and bound access verified; functools.singledispatchmethod definitions and copied signatures are evaluated on generated definitions (bounded).")
C["C11"] = ("proof", "declaring implementations, collecting them along the MRO of any class and the mapping an instance is, verified for every hierarchy; Python's class creation protocol is assumed. Bounded: random hierarchies on the real code.")
C["C29"] = ("proof", "every step that installs, removes, composes or calls verified to write nothing another thread can reach, for all interpretations and exits; that threading.local keeps attributes per thread is assumed. Bounded: enforced interleavings on the real code.")
C["C27"] = ("exploration", "what running restricted code does to the environment it is given verified for every environment, name and code; restrictions, type checks, error regions, splicing and sessions are evaluated on generated snippets (bounded)")
NA = {}
