"""Generates properties.jsonl (kept so that the list stays in step with the checks)."""
import json, pathlib
M="asyncapi3/models/"; V="asyncapi3/validators/"
P=[]
def p(id,title,statement,over,q,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(obs),hook_needed=None)))
p("C01","Every model validates on assignment and revalidates nested instances",
  "For every public model object of the library, assigning to a field is validated exactly like constructing with that value, and a model instance nested in another model (or passed to a constructor) is validated again rather than trusted. Input is accepted under both the Python name and the wire name of a field. No model class opts out of any of this.",
  ["programs","histories"],"every model class reachable from the public packages, every field, every sequence of assignments after creation",
  "Tests assign a few fields on a few models; a class that silently loses one of the settings behaves identically until someone assigns a bad value to that class.",
  [M+"base_models.py",M+"schema.py",M+"bindings/kafka.py"],[("shared model configuration","ConfigDict of the three base classes and of Schema, MultiFormatSchema, KafkaTopicConfiguration")],obs=["attribute assignment on any model","constructor with nested instances"])
p("C02","Item assignment on patterned maps is validated",
  "Storing an entry with map[key] = value in any patterned object (servers, channels, operations, messages, parameters, every components section) accepts exactly the keys the constructor accepts and stores the validated value; otherwise it raises a validation error and leaves the map as it was.",
  ["inputs","histories"],"every patterned map, every key string, every value, any history of item assignments",
  "Tests assign one valid key; the guarantee is about all invalid keys and values.",
  [M+"base_models.py"],[("item assignment","PatternedRootModel.__setitem__")],obs=["map[key] = value"])
p("C03","Patterned object keys are exactly letters, digits, hyphen and underscore",
  "A patterned object is accepted if and only if each of its keys is a non-empty string made only of ASCII letters, ASCII digits, '-' and '_'; this is enforced for every key of the map, not just some, and for every patterned map of the library.",
  ["inputs"],"every string as key (including newlines, dots, non-ASCII letters, the empty string), every position in the map, every patterned map class",
  "The key language is infinite; tests sample a dozen strings and missed the trailing newline.",
  [M+"helpers.py",M+"base_models.py",M+"components.py"],[("key check","validate_patterned_key, PatternedRootModel.validate_patterned_keys")],obs=["constructing any patterned map"])
p("C04","Objects are closed, extensible or open exactly as specified",
  "Objects the specification declares extensible accept unknown fields if and only if the whole field name is 'x-' followed by one or more word characters, dots or hyphens; closed objects (Reference and all protocol binding objects) accept no unknown field; the open objects (Schema, Multi Format Schema and the Kafka topic configuration) accept any.",
  ["inputs","programs"],"every model class, every extra field name",
  "Each class needs its own negative test for every kind of bad name; a class moved to the wrong base passes all positive tests.",
  [M+"base_models.py",M+"base.py",M+"schema.py",M+"bindings/core.py"],[("extension check","ExtendableBaseModel.validate_extensions"),("extra policy","model_config of each class")],obs=["constructing a model with unknown fields"])
p("C05","Each field keeps its specified wire name in both directions",
  "Every field of every object is read from, and always written under, the name the AsyncAPI specification gives it ($ref, camelCase names, and the irregular ones such as clientID, Statements, geo-replication or cleanup.policy); no two fields of an object share a wire name. Serialisation uses the wire names by default.",
  ["inputs","programs"],"every field of every model class",
  "A symmetric mistake (same wrong alias for reading and writing) round-trips and passes; most fields are only exercised under one of the two names.",
  [M+"*.py",M+"bindings/*.py"],[("aliases","Field(alias=...) on every field"),("serialisation by alias","model_config")],obs=["model_dump, model_dump_json, model_validate"])
p("C06","Absent optional fields are omitted and nothing else is",
  "When a model is serialised, a field is left out because of its value only if that value is None: False, 0, empty strings, empty lists and empty maps are always written. Every optional field that is None is left out, except a channel's address, which is written as null.",
  ["inputs"],"every optional field of every model class, every value of the field",
  "Needs the None and every falsy value for each of several hundred fields; tests cover a handful.",
  [M+"helpers.py",M+"*.py",M+"bindings/*.py"],[("null exclusion","exclude_if=is_null on optional fields, helpers.is_null")],obs=["model_dump, model_dump_json"])
p("C07","Binding version is always serialised with the supported default",
  "Every binding object that carries a binding version has the version the library implements for that protocol as its default (for example kafka 0.5.0, mqtt 0.2.0, sns 1.0.0), and the version is present in the serialised output whether it was given or defaulted.",
  ["inputs","programs"],"every binding class with a version field, given or defaulted",
  "Tests compare a version constant per file against itself; missing output or a stale default in one of ~40 classes goes unnoticed.",
  [M+"bindings/*.py"],[("version default","binding_version fields")],obs=["model_dump of a binding"])
p("C08","Each object has the specified fields with the specified value shapes",
  "Every object declares each specified field with the specified requiredness, nullability, default, value type and closed enumeration; a Reference is accepted exactly at the places where the specification allows one, and is the only thing accepted where only references are allowed (operation channel and messages, channel servers, reply channel and messages). A {'$ref': ...} object at such a place is read as a Reference, never swallowed by an open object type.",
  ["inputs","programs"],"every field of every model class, every shape of value",
  "Tests build positive documents; widening a type, dropping a required marker, or losing a Reference alternative in one place is invisible to them.",
  [M+"*.py",M+"bindings/*.py"],[("field declarations","annotations and Field(...)")],obs=["model_validate"])
p("C09","Protocol binding maps agree for all protocols and all four kinds",
  "The server, channel, operation and message bindings objects each offer the same 19 protocols, and each protocol entry holds that protocol's own binding object of that same kind.",
  ["programs"],"all 4 kinds x 19 protocols",
  "A kind mix-up between look-alike (often empty) binding classes validates the same in most documents.",
  [M+"bindings/core.py",M+"bindings/__init__.py"],[("bindings maps","*BindingsObject classes")],obs=["parsing and serialising bindings"])
p("C10","Security scheme and OAuth flow rules hold for every combination",
  "A security scheme is accepted exactly when: apiKey has in user or password; httpApiKey has a name and in query, header or cookie; http has a scheme; bearerFormat occurs only with http and the bearer scheme; oauth2 has flows; openIdConnect has its URL; scopes occur only with oauth2 or openIdConnect. An implicit flow has an authorizationUrl, password and clientCredentials flows have a tokenUrl, and an authorizationCode flow has both.",
  ["inputs"],"all combinations of scheme type, location and presence of every other field, at construction and on assignment",
  "The rules interact over a product of a dozen fields; tests enumerate single violations from a valid base.",
  [M+"security.py"],[("scheme rules","SecurityScheme.validate_security_scheme_dependencies"),("flow rules","OAuthFlows validators")],obs=["constructing SecurityScheme, OAuthFlows"])
p("C11","Channel, message example, correlation id and contact rules hold",
  "A channel may carry parameters only if its address is a string containing a non-empty expression in curly braces; a message example needs headers or a payload; a correlation id location starts with '$message.'; a contact email has the documented e-mail shape in its entirety. Values that satisfy the rule are never rejected.",
  ["inputs"],"every address string, presence combination, location string and e-mail string",
  "The accepted sets are infinite string languages and presence combinations; tests sample them.",
  [M+"channel.py",M+"message.py",M+"security.py",M+"helpers.py",M+"info.py"],[("rules","model and field validators of these objects, EmailStr")],obs=["constructing Channel, MessageExample, CorrelationID, Contact"])
p("C12","Protocol binding value constraints are enforced exactly",
  "The documented value constraints of the AMQP, IBM MQ, Kafka, NATS and Solace bindings (numeric ranges, maximum lengths, mutually exclusive or mutually required fields) accept exactly the documented values: every value inside is accepted and every value outside is rejected, including the boundary values and absent optional fields.",
  ["inputs"],"every integer, string length and presence combination of the constrained fields",
  "Boundaries and combinations are infinite; tests probe one value per side at most.",
  [M+"bindings/amqp.py",M+"bindings/ibmmq.py",M+"bindings/kafka.py",M+"bindings/nats.py",M+"bindings/solace.py"],[("constraints","validators and Field bounds of these classes")],obs=["constructing the binding classes"])
p("C13","Only AsyncAPI 3.x.y version strings are accepted",
  "The document version is accepted if it is exactly 3.<digits>.<digits>, optionally followed by a hyphen and a suffix of word characters, dots and hyphens. Any other ASCII string, including one with a major version number other than 3, missing parts, surrounding whitespace or a trailing newline, is rejected with a validation error (how a major version 3 written with leading zeros is treated is left open).",
  ["inputs"],"every version string, at construction and on assignment",
  "Infinite language; tests sample about ten strings.",
  [M+"asyncapi.py"],[("version check","AsyncAPI3.validate_asyncapi_version")],obs=["constructing AsyncAPI3"])
p("C14","Extra processors all run, in order, on every validation",
  "Whenever a document with extra processors is constructed, validated or has a field assigned, every configured converter runs once in the given order and then every configured validator runs once in the given order, each on the document itself; an error raised by any of them rejects the document. The processor lists are never serialised.",
  ["programs","histories","configurations"],"every list of converters and validators, every construction or assignment",
  "Tests use one processor at a time; order, completeness and error propagation over lists are quantified over all configurations.",
  [M+"asyncapi.py"],[("pipeline","AsyncAPI3.run_extra_processors")],obs=["AsyncAPI3 construction and assignment"])
p("C15","The builder yields an empty, reference-validated document with the given info",
  "The builder entry point returns a document whose info carries exactly the given title, version, description, terms of service, contact, license, tags and external docs, whose servers, channels, operations and all 19 components sections are present and empty, and which has reference validation enabled; explicitly passed keyword arguments take precedence over these defaults.",
  ["inputs","configurations"],"all argument combinations",
  "Tests check a few attributes; each argument and each section is a separate obligation.",
  [M+"asyncapi.py"],[("builder","AsyncAPI3.as_builder")],obs=["AsyncAPI3.as_builder"])
p("C16","Unified validation checks every reference in the document",
  "With the unified references validator, every Reference held in any field, list or map at any depth of the document is resolved, whatever else the document contains and however often the same reference string occurs; a document in which any one of them points inside the document to something missing is rejected.",
  ["inputs"],"every document, every place that can hold a Reference, arbitrary surrounding content",
  "There are several hundred places that can hold a reference; tests plant dangling ones in a few, alone in the document.",
  [V+"unified_references_validator.py"],[("recursive walk","UnifiedReferencesValidator")],obs=["AsyncAPI3 with UnifiedReferencesValidator"])
p("C17","A reference is accepted exactly when it points to the right kind of object",
  "With the unified references validator, a reference that resolves inside the document is accepted if and only if the object it finally leads to is of the kind that belongs at the place of the reference. This depends only on that place, not on how user-chosen names in the document are spelled.",
  ["inputs"],"every place that can hold a Reference x every kind of target x every spelling of map keys",
  "Places x kinds x names is a product of thousands; tests cover a few dozen with harmless names (keys spelled like field names were misjudged).",
  [V+"unified_references_validator.py"],[("expected types","REFERENCE_TYPE_MAPPINGS and path matching")],obs=["AsyncAPI3 with UnifiedReferencesValidator"])
p("C18","Reference resolution follows the document and always terminates",
  "Resolving '#/a/b/...' finds the object reached by following the wire names of fields and the keys of maps, following references that lie at the end of the path; a missing field or key, an absent section, a step into something that is no object or map, an unsupported form and a cycle of references of any length are each rejected with a validation error, and resolution always terminates. References starting with http:// or https:// are accepted with a logged warning and resolve to nothing. How empty path steps (a trailing or doubled slash) are treated is left open.",
  ["inputs"],"every reference string and every document, including reference chains and cycles of any length",
  "Chains, cycles and paths are unbounded; tests use lengths one to three in a few sections.",
  [V+"utils.py"],[("resolution","resolve_reference")],obs=["resolve_reference, UnifiedReferencesValidator"])
p("C19","Tag references are checked at every documented place",
  "The tags validator checks each tag reference in info, servers, channels, operations, messages, the traits of messages and operations (at root level and in components) and in components tags: one starting with '#' is accepted only if it is '#/components/tags/' followed by the exact key of an existing entry, otherwise the document is rejected; one not starting with '#' is accepted with a logged warning. No valid document is rejected.",
  ["inputs"],"every document, each documented place, any other content around it",
  "Tests plant one bad reference in an otherwise trivial document for some of the places.",
  [V+"tags_ref_validator.py","docs/extra_validators/references.md"],[("per-location checks","TagsRefValidator")],obs=["AsyncAPI3 with TagsRefValidator"])
p("C20","External documentation references are checked at every documented place",
  "The external docs validator checks the external documentation reference at every place its documentation lists as verified (info, info tags, servers, channels, operations, channel messages, their tags, traits and traits' tags, schemas, tags, and the components sections) and every message or message trait headers or payload schema the validator names: one starting with '#' is accepted only if it is '#/components/externalDocs/' followed by the exact key of an existing entry, otherwise the document is rejected; one not starting with '#' is accepted with a logged warning. No valid document is rejected.",
  ["inputs"],"every document, each documented place, any other content around it",
  "Tests plant one bad reference in an otherwise trivial document for some of the places.",
  [V+"external_docs_ref_validator.py","docs/extra_validators/references.md"],[("per-location checks","ExternalDocsRefValidator")],obs=["AsyncAPI3 with ExternalDocsRefValidator"])
p("C21","Reference validators only read the document and remember nothing",
  "Every shipped validator leaves the document it is given unchanged and returns that same document, and its verdict on a document does not depend on documents validated before.",
  ["inputs","histories"],"every shipped validator, every document, every sequence of documents",
  "Tests validate one document per validator and do not compare it before and after.",
  [V+"*.py"],[("validators","__call__ of each shipped validator")],obs=["document before and after validation"])
p("C22","Bad input is always reported as a validation error",
  "Whatever data a user supplies, the library's own model validators and reference validators reject it by raising a value error that surfaces as a validation error; they never escape with another kind of exception such as AttributeError, KeyError, TypeError or RecursionError.",
  ["inputs"],"every model validator and every shipped reference validator, every input that reaches it",
  "Tests assert that bad samples are rejected; a crash with another exception type happens only for combinations they do not try (None, missing sections, references in odd places).",
  [M+"*.py",V+"*.py"],[("validators","all validator functions")],obs=["exceptions escaping constructors"])
p("C23","Reference factories produce references that resolve to the named entry",
  "Each reference factory, for every entry name, yields a reference to exactly that entry of the section it is named after, spelled with the section's wire name, so that it resolves there.",
  ["inputs","programs"],"all 22 factories x every entry name",
  "Tests compare literal strings per factory; agreement with the models' wire names and the resolver is not tested.",
  [M+"base.py",M+"components.py",V+"utils.py"],[("factories","Reference.to_* class methods")],obs=["Reference factories"])
p("C24","References hash consistently with equality",
  "Two equal references always have the same hash, a reference's hash depends only on the reference string, and references with different strings are not equal.",
  ["inputs"],"every pair of references",
  "Quantifies over all pairs.",
  [M+"base.py"],[("hash","Reference.__hash__")],obs=["sets and dicts of references"])
p("C25","A rejected assignment leaves the object unchanged",
  "When assigning to a field, extension field or map root of a model is rejected, the error is raised and the object keeps exactly the values, extra fields and set-field information it had before.",
  ["inputs","histories"],"every extensible, closed or patterned model class, every attribute, every rejected value, any rule that rejects it",
  "Tests assert that the error is raised but not what the object holds afterwards; rules that span several fields run only after the value is stored.",
  [M+"base_models.py"],[("rollback","__setattr__ of the base model classes")],obs=["object after a rejected assignment"])
p("C28","Patterned objects behave as mappings of their entries",
  "Iteration, len(), truth value, 'in', indexing, deletion and serialisation of a patterned object all show exactly its entries, in insertion order and under their exact names; replacing an entry keeps its position. Asking for or deleting an entry that does not exist raises KeyError and changes nothing.",
  ["inputs","histories"],"every patterned map class, every set of entries and entry name (including near misses and names spelled like attributes), every sequence of item assignments and deletions",
  "Tests use one or two entries and one operation at a time; disagreement between the operations shows only for particular names or histories.",
  [M+"base_models.py"],[("mapping protocol","PatternedRootModel.__getitem__, __setitem__, __delitem__, __iter__, __len__, __contains__")],obs=["map[key], key in map, len(map), iteration, del map[key]"])
p("C29","Validation neither changes its input nor shares state between objects",
  "Constructing, validating or assigning leaves the data and model instances it is given unchanged, whether it accepts or rejects them. Two objects created separately share no mutable state: changing one, including documents from the builder, never shows in another or in objects created later, and the same data always gets the same answer.",
  ["inputs","histories"],"every model class and field, every accepted or rejected value, every sequence of creations",
  "Tests create fresh data for each case and do not compare it afterwards, nor compare two objects.",
  [M+"*.py"],[("validators and defaults","model and field validators, default_factory and default values, AsyncAPI3.as_builder")],obs=["input data after validation","a second object after editing the first"])
p("C30","Serialising changes nothing and is repeatable",
  "model_dump and model_dump_json, in every mode and with every exclude option, leave the object unchanged, return equal results when repeated, and the returned containers are not shared with the object.",
  ["inputs","histories"],"every model class, every field present or absent, every dump option",
  "Tests dump an object once and compare the text.",
  [M+"*.py"],[("serialisation","model configuration, field exclusion predicates, serialisers")],obs=["object before and after model_dump"])
p("C31","A valid object stays valid and unchanged when validated again",
  "Every accepted object is accepted again, with equal content, when it is validated, nested in another object, or when one of its own field values is assigned back to it.",
  ["inputs","histories"],"every model class, every field, every accepted value",
  "Tests validate raw data once; converters or validators that are not idempotent show only on the second pass, which revalidation of nested instances makes routine.",
  [M+"*.py"],[("validators","all field and model validators"),("revalidation","revalidate_instances in the model configuration")],obs=["model_validate(instance)","constructor with a nested instance","x.f = x.f"])
p("C32","Errors for bad references name the path to their place",
  "When the unified reference validator rejects a reference, the error message contains the path of the place: the field names, the exact entry names and the list indexes leading to it, in that order.",
  ["inputs"],"every place that can hold a reference, dangling references and references to the wrong kind, every entry name and list position",
  "Tests look at the message of a few places; a wrong index or a missing step elsewhere passes.",
  [V+"unified_references_validator.py"],[("path of a reference","the walk of UnifiedReferencesValidator and its messages")],obs=["text of the ValueError"])
p("C33","Overridden reference hooks decide at every documented place",
  "A subclass of the tag or external documentation validator that overrides its documented hook for external or for internal references decides about the references of that sort at every documented place: the hook is called with the document and the reference, an error it raises rejects the document, and a reference it accepts is accepted.",
  ["inputs","programs"],"every documented place of both validators, external, existing and dangling internal references, alone and among other entries",
  "Tests subclass neither validator.",
  [V+"tags_ref_validator.py",V+"external_docs_ref_validator.py"],[("hooks","validate_external_tag_ref, validate_internal_tag_ref, validate_external_external_doc_ref, validate_internal_external_doc_ref")],obs=["calling an instance of the subclass"])
p("C26","Serialising and parsing again yields an equal object",
  "For every valid object, what model_dump or model_dump_json gives (wire names or Python names, Python or JSON mode, with or without unset or default fields) is accepted by the same class and yields an equal object; only an optional field that was explicitly null comes back as if it had been left out.",
  ["inputs"],"every model class, every field and alternative of its type, every extension or further field, every way to serialise",
  "Tests compare a few documents; a name, an omission or a conversion that does not survive the way back shows only for particular values.",
  [M+"*.py"],[("serialisation and parsing","fields, aliases, exclusion predicates, defaults, validators of all models")],obs=["model_validate(model_dump(x)), model_validate_json(model_dump_json(x))"])
p("C34","Equality compares content, and copies are equal and independent",
  "Two objects of the same class are equal exactly when their fields and extra fields are equal, an object never equals a value of another class, and comparing neither raises nor changes anything. A copy (model_copy, copy, deepcopy) equals the original with the same set fields; assigning to a copy's field, or changing anything inside a deep copy, never shows in the original.",
  ["inputs","histories"],"every model class, every field and alternative of its type, every way to copy",
  "Tests compare single fields of single objects.",
  [M+"*.py"],[("equality and copying","all model classes and their bases")],obs=["x == y, model_copy, copy.copy, copy.deepcopy"])
p("C35","JSON text is treated like the data it spells",
  "For every class and every JSON value, model_validate_json accepts the text exactly when model_validate accepts the data it spells, and both yield objects with the same content and set fields.",
  ["inputs"],"every model class, every field, accepted and rejected values",
  "Tests use one of the two routes for each case.",
  [M+"*.py"],[("parsing","validators and configuration of all models")],obs=["model_validate, model_validate_json"])
p("C36","The order of fields and entries in the input does not matter",
  "Giving the fields of an object or the entries of a map in another order, at any depth, changes neither whether the data is accepted nor the content of the object.",
  ["inputs"],"every model class, every field, every position of each key",
  "Tests give fields in the order of the documentation.",
  [M+"*.py"],[("validators","field and model validators that look at several fields or entries")],obs=["model_validate"])
p("C37","A model holds and writes every value exactly as it was given",
  "Reading data, assigning a field or storing an entry keeps every key, list item, string, number and flag of accepted data: each stands unchanged, at its place, in what model_dump and model_dump_json write. Left out are only optional fields given as null; URLs may be normalised.",
  ["inputs"],"every model class, every field and alternative of its type, any string, number or nesting",
  "Tests compare a few values of each field.",
  [M+"*.py"],[("validators and serialisers","all models")],obs=["model_validate followed by model_dump, model_dump_json"])
p("C38","No text makes a pattern check take exponential time",
  "However long and whatever text a user puts into field values, entry names, extension names or references, matching it against the regular expressions of the library's own validators never takes time exponential in the length of the text.",
  ["inputs"],"every class, field, entry name, extension name and reference text",
  "A test tries a few texts; the bad ones are long, fail at their end and depend on the pattern.",
  [M+"*.py",V+"*.py"],[("pattern checks","validate_extensions, PatternedRootModel, EmailStr, version, channel address")],obs=["model_validate"])
p("C27","Every conforming AsyncAPI 3.0 document is accepted",
  "Every document that conforms to the AsyncAPI 3.0 specification and the supported binding specifications is accepted.",
  ["inputs"],"every conforming document",
  "Quantifies over all documents of an external specification.",
  [M+"*.py"],[("models","all models")],obs=["model_validate"])
out=pathlib.Path(__file__).parent/"properties.jsonl"
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    assert x["statement"].rstrip(".").count(". ")<=2, x["id"]
out.write_text("".join(json.dumps(x)+"\n" for x in P))
