"""Registry of the checks, and what each of them does (used by run.py and mkmanifest.py)."""
import hang
import models
import more
import parity
import refs
import rules

CHECKS = {}
CHECKS.update(refs.CHECKS)
CHECKS.update(models.CHECKS)
CHECKS.update(rules.CHECKS)
CHECKS.update(more.CHECKS)
CHECKS.update(parity.CHECKS)
CHECKS.update(hang.CHECKS)
LEVEL = {}

ENGINE = ("The source of every module of the package is parsed and interpreted abstractly (nothing of /repo is imported or executed): "
          "class bodies are evaluated into a model of the pydantic classes, functions and validators are followed along every path with symbolic inputs "
          "(strings as regular languages, integers as intervals, None/kind splits), and the outcome of every path is compared with a reviewed specification table. ")

EXPLAIN = {
    "C01": ENGINE + "Obligations: for each model class and field, every probe value (well-formed, wrong kind, null, wrong constant, symbolic integer/string, model instance corrupted after creation) has the same verdict and stored value through keyword construction, validation under the Python name, under the wire name and assignment; corrupted nested instances are rejected; enum of classes comes from spec/classes.json and the source must still define each; objects with all their optional fields and combinations of fields bound by rules are assigned to as well.",
    "C02": ENGINE + "Obligations: for each patterned class, map[key]=value with the key a symbol over all strings and each value shape is compared path by path with the constructor's verdict on {key: value}; the stored value equals the constructor's, the rest of the map is untouched, a rejected assignment leaves it unchanged, also after earlier item assignments.",
    "C03": ENGINE + "Obligations: for each patterned class the set of keys on accepting paths (a regular language computed exactly from the code's regexes and string operations) equals [A-Za-z0-9_-]+, in first, middle and last position of the map; ASCII part exact, in addition non-ASCII letters are rejected; non-string keys are rejected with a validation error; maps of many entries with one bad key, keys of every non-string kind, keyword construction.",
    "C04": ENGINE + "Obligations: for each class the language of accepted unknown field names equals x-[A-Za-z0-9_.-]+ (extensible), the empty language (closed), all strings (open), with the unknown name symbolic, alone, before or after a good one, at construction and on assignment.",
    "C05": ENGINE + "Obligations: per field the alias read from the class model (validation and serialisation) equals the specification's wire name, both names populate the field, wire names are distinct, and the dump in the default mode emits the wire name.",
    "C06": ENGINE + "Obligations: per optional field, the field's exclusion predicate (any callable) is interpreted on None, False, 0, 0.0, '', [], {}, empty models, symbolic strings and integers; it must hold exactly for None; also model-level serialisers are followed; null next to every other field, and in nested objects, under both dump functions.",
    "C07": ENGINE + "Obligations: per binding class with a version: the default equals the specification table, and the dump of a defaulted and a given version both contain it.",
    "C08": ENGINE + "Obligations: per field and value shape (each alternative of the specified type, its near misses, null, wrong kind, $ref map, a map valid as another alternative) the accept/reject verdict and the class of the resulting object equal the specification term's; enumerations compared as languages, integers as intervals.",
    "C09": ENGINE + "Obligations: 4 kinds x 19 protocols: the entry accepts this kind's object and stores an instance of the class of exactly that kind and protocol; instances of the other kinds' classes are rejected or re-validated as the own class.",
    "C10": ENGINE + "Obligations: the validators of SecurityScheme and OAuthFlows are explored with every field symbolic (present/absent, language of strings, enum members) at construction and on assignment; on every path the verdict equals the rule predicate evaluated on the path's constraints.",
    "C11": ENGINE + "Obligations: rule languages (addresses with a non-empty {expression}, '$message.' prefixes, the documented e-mail shape) are compared with the exact language of inputs on the accepting paths; presence combinations enumerated.",
    "C12": ENGINE + "Obligations: for each constrained binding field/combination the accepted integers (as interval sets), string lengths and presence combinations on accepting paths equal the documented ones, at construction and assignment, under both names.",
    "C13": ENGINE + "Obligations: the language of version strings on accepting paths equals the documented regular language, at construction, through both names and on assignment.",
    "C14": ENGINE + "Obligations: for all lists of stand-in processors up to a length (each either passing or raising) the sequence of recorded calls, their argument and the outcome are exactly the specified ones, for construction, validation and assignment of each field; dumps contain neither list. Lengths: quick 0-3+0-3, thorough longer; some thirty kinds of exception; a document with processors that is dumped, copied or revalidated.",
    "C15": ENGINE + "Obligations: as_builder is explored with every argument symbolic or absent; each info field holds exactly the given value, every section is present and empty, the unified validator is configured, explicit keyword arguments win.",
    "C16": ENGINE + "Obligations: for every place of the document model that can hold a Reference (enumerated from the class model to the fixpoint of class/field pairs, through lists, maps and unions, with symbolic keys) a dangling reference there is rejected: alone, surrounded by the same string resolved elsewhere, behind other content and in later list/map positions; long lists and maps whose length comes from the code's own integer constants; strings near a valid one.",
    "C17": ENGINE + "Obligations: place x target-kind matrix: for each place and each kind of target the verdict equals the specified kind; user keys on the way are symbolic or spelled like field names; unresolved comparison means a wrong expected type; targets that are no object of the specification (plain maps, lists, strings, numbers, booleans) and every other class inside the document; chains, two places that share a string, crowds of references.",
    "C18": ENGINE + "Obligations: resolve_reference on paths through every section, symbolic strings, steps into every kind of value, chains and cycles of several lengths under a modelled recursion limit (a resolver that recurses per link is reported), external references, and a warning on the package logger; steps that differ from an existing name by dots, case, escapes, blanks, suffixes or wildcards; positions in lists and plain maps.",
    "C19": ENGINE + "Obligations: each documented place x (dangling, exact, prefix-confused, external, symbolic reference string) x surrounding content (other sections None/empty/present, earlier items valid, references or inline): rejected iff the string starts with '#' and is not the exact key; warnings counted; near-miss names, deeper and doubled prefixes, other sections, long lists with one bad item.",
    "C20": ENGINE + "Obligations: as C19 for external documentation references.",
    "C21": ENGINE + "Obligations: each validator is run abstractly over documents with every store into the document, into module/class state or into the validator instance recorded: no store to the document or to state that survives a call and is read later; the returned object is the argument; verdict of a second document after a first equals its own verdict.",
    "C22": ENGINE + "Obligations: no path through a model validator or reference validator ends in an exception other than the ones pydantic turns into a validation error (ValueError/AssertionError/PydanticCustomError) over raw probes of every field and validator documents with missing sections, references and odd values in odd places.",
    "C23": ENGINE + "Obligations: per factory, with the entry name symbolic over all names: the produced string equals '#/components/<wire name>/' + name, and resolving it in a document that has that entry yields this entry.",
    "C24": ENGINE + "Obligations: __eq__ and __hash__ of Reference interpreted over pairs of symbolic strings and over equal/different set-field histories: equal implies same hash term, hash term depends on ref only, different strings compare unequal.",
    "C25": ENGINE + "Obligations: for each class and field/extension/root, every rejected assignment leaves values, extra fields and set-field information identical (compared by identity on the abstract heap), including rejections by rules over several fields; for every probe of every field of objects of several shapes, and every rule combination.",
    "C28": ENGINE + "Obligations: for each patterned class, histories of item assignments and deletions over maps of 0-4 entries with symbolic, near-miss and attribute-like names: after every step iteration, len, truth, membership, indexing, KeyError for missing names and the dump are compared with a reference ordered map.",
    "C29": ENGINE + "Obligations: for each class a deep snapshot of the abstract heap is taken of the input data, instances and keyword arguments before and after every accepted and rejected validation or assignment of every field probe; two objects are checked for common mutable containers by identity, before and after editing one in place; the builder likewise.",
    "C30": ENGINE + "Obligations: for each class, each field given or absent and each dump option: heap snapshot before and after, two results compared, containers of the result compared by identity with those of the object.",
    "C31": ENGINE + "Obligations: for each class and field, each accepted probe value's object is validated again, nested in each holder class and has its own value assigned; verdict and content must be the same.",
    "C32": ENGINE + "Obligations: for every place, a dangling reference and a reference to the wrong kind, with symbolic and confusable entry names and in several list positions; the error text on every path (a string containing the symbols) must contain, in order, each step of the path.",
    "C33": ENGINE + "Obligations: subclasses overriding each hook (analysed together with the source) x documented place x kind of reference x surroundings; the verdict must be the hook's, and the hook must be given the document and the reference.",
    "C26": ENGINE + "Obligations: for each class, minimal, full, varied and extended data and each probe value of each field x 6 ways to serialise: the abstract output is parsed by the same class (as JSON text through model_validate_json) and must give an equal object, null optional fields counting as left out.",
    "C34": ENGINE + "Obligations: for each class and case, two objects from the same data, neighbouring cases and foreign values are compared both ways against a structural comparison of their contents; four ways to copy: content, set fields, equality, shared mutable containers, and the original's heap snapshot after assigning to the copy.",
    "C35": ENGINE + "Obligations: for each class and case that is JSON data: verdict and content of model_validate(data) and model_validate_json(text spelling data) are the same.",
    "C37": ENGINE + "Obligations: for each class and each case of data (minimal, full, every field over every kind of value with any string and number, any extension, long lists and maps, near variants): every key, item and scalar of accepted data is found unchanged at its place in model_dump() and model_dump_json(), also when the value was assigned or the entry stored afterwards.",
    "C38": ENGINE + "Obligations: for each class, field, extension, key and rule with any text in every position, and each reference validator with any reference text, every use of a regular expression on a text is recorded with the language of texts that reach it; the pattern's automaton (epsilon paths counted, restricted to the texts of that language on which the attempt fails) must have no state that can read the same pump in two ways (exponential ambiguity).",
    "C36": ENGINE + "Obligations: for each class and case: the data with each key moved to the front or the end and every object inside reversed has the same verdict and content.",
}
ASSUME = {"*": [
    "pydantic 2.12 behaves as modelled in sa/pyd.py (lax mode validation, smart unions, validator order, assignment, serialisation); Python built-ins and re as modelled in sa/std.py and sa/lang.py",
    "spec/classes.json and spec/references.json state the AsyncAPI 3.0 object tables as reviewed by hand; they are input to the check, not derived from /repo at run time",
    "a path that leaves the modelled subset counts as undecided, is listed in the evidence and is never reported as a violation; the check refuses to answer (exit 2) when fewer than half of the obligations are decided",
]}

TECH = "path-sensitive abstract interpretation of the source (AST), regular-language and interval domains"
TECHNIQUE = {
    "C01": TECH + "; agreement of construction and assignment per class and field",
    "C02": TECH + "; equivalence of item assignment and construction",
    "C03": TECH + "; exact language of accepted keys by automata",
    "C04": TECH + "; exact language of accepted unknown field names",
    "C05": "class-table extraction from the AST and abstract evaluation of aliases against the specification table",
    "C06": "class-table extraction and abstract interpretation of every exclusion predicate and serialiser",
    "C07": "class-table extraction and abstract interpretation of binding defaults and dumps",
    "C08": TECH + "; field types against specification type terms by shape enumeration",
    "C09": "class-table extraction; 4x19 kind/protocol matrix against the specification table",
    "C10": TECH + "; all paths of the rule validators against the rule predicate",
    "C11": TECH + "; language equality by automata",
    "C12": TECH + "; accepted interval sets and presence combinations",
    "C13": TECH + "; language equality by automata",
    "C14": "abstract interpretation with recording stand-in processors over all pass/fail lists up to a bound",
    "C15": TECH + "; builder arguments symbolic",
    "C16": TECH + "; reachability of the reference walk over all places of the class model",
    "C17": TECH + "; place x kind matrix",
    "C18": TECH + "; resolver over symbolic reference strings with modelled call depth",
    "C19": TECH + "; location-by-location obligation table",
    "C20": TECH + "; location-by-location obligation table",
    "C21": "effect analysis: recorded stores of the abstract interpreter plus two-document history comparison",
    "C22": "exception-escape analysis by abstract interpretation over all paths and raw value kinds",
    "C23": TECH + "; factories with symbolic names against the resolver",
    "C24": TECH + "; eq/hash terms over pairs of symbolic references",
    "C25": "effect analysis: abstract heap snapshot before and after each rejected assignment",
    "C28": TECH + "; agreement of the mapping operations with an ordered-map reference over operation histories",
    "C29": "effect and aliasing analysis: abstract heap snapshots of inputs, sharing of mutable containers between abstract objects",
    "C30": "effect and aliasing analysis: abstract heap snapshots around every dump",
    "C31": TECH + "; idempotence of validation per class, field and value",
    "C32": TECH + "; error texts as strings over symbolic entry names, place by place",
    "C33": TECH + "; overriding subclasses analysed with the validators, place by place",
    "C26": TECH + "; abstract output parsed again, per class, field, value and way to serialise",
    "C34": TECH + "; equality against structural comparison, aliasing analysis of copies",
    "C35": TECH + "; agreement of the two parsing routes",
    "C37": TECH + "; structural comparison of given and written data",
    "C38": TECH + "; exponential ambiguity of each pattern's automaton on the texts that reach it",
    "C36": TECH + "; agreement over permutations of the input",
}
NOTE = ("Exhaustive over the enumerated classes/fields/places and over all paths of the interpreted code; string and integer inputs are symbolic. "
        "Not a machine-checked proof: it trusts the abstract model of pydantic, re and the built-ins (sa/pyd.py, sa/std.py, sa/lang.py) and the hand-reviewed specification tables in spec/. "
        "Paths outside the modelled subset are listed as undecided in the evidence (none on the current tree).")
