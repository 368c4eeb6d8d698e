import json
R="derive/src/from_request/mod.rs"; PA="derive/src/from_request/parse.rs"
def p(id,title,st,over,text,why,files,mech,obs): return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None))
L=[
p("C01","A request becomes the variant whose declared route it matches",
"For every set of declared routes that the derive accepts and every request, the request decodes to the variant one of whose routes has the request's method and a pattern that matches the whole path segment by segment (literals byte for byte, `{x}` one non-empty segment, `{x...}` the possibly empty rest, `*` only the path `*`), whatever the order of declaration. If no route matches, and there is no fallback, the request is refused; the query and the form of the request target have no influence.",
["inputs","programs"],"all requests (method, path) against all declarations",
"Tests try a handful of paths per declaration; near misses (trailing slash, empty segments, regex metacharacters in literals, asterisks, absolute targets) are unbounded.",
[R,PA],[("regex per route, one regex set per type","derive/src/from_request/parse.rs RoutePath::parse / PathMap::build"),("generated match on method and matched path","derive/src/from_request/mod.rs")],["FromRequest::from_request_and_body of derived types"]),
p("C02","Placeholders deliver exactly the text of their segment, by name",
"When a route matches, every field named by a placeholder holds the result of parsing exactly the bytes that its placeholder covers in the path, undecoded, whatever the order of fields, placeholders and routes. If a field's type does not take the text, the request fails as 404 carrying that type's error as the cause, and no other route is tried.",
["inputs","programs"],"all paths against all declarations with placeholders and types",
"Tests use two or three concrete texts; swapped captures, off-by-one slices and error mapping depend on path content and declaration order.",
[R,PA],[("captures by index, FromStr per field","derive/src/from_request/mod.rs"),("field names of a route","derive/src/from_request/parse.rs")],["fields of the decoded value","Error::source"]),
p("C03","Refusals: 404 for unknown paths, 405 with the exact methods otherwise",
"A request whose path matches no declared route is refused with 404 and without a list of methods. A request whose path matches some route but not its method is refused with 405, listing exactly the methods, each once, that the same path would be accepted with, including the types of the placeholders.",
["inputs","programs"],"all requests against all declarations",
"Tests check single paths; the set of methods depends on how the path's text fits the types of several routes.",
[R],[("collection of allowed methods for a matched path","derive/src/from_request/mod.rs")],["Error::http_status","Error::allowed_methods"]),
p("C04","GET routes answer HEAD unless HEAD is declared itself",
"Every route declared for GET accepts HEAD for the same paths, with the same result as GET, unless some route with the same pattern is declared for HEAD, which then takes those requests, whatever the order of declaration. HEAD routes never imply GET.",
["inputs","programs"],"all paths and all orders of declaration",
"The rule is about pairs of declarations and all their paths; tests have one example of each.",
[R,PA],[("implicit HEAD routes","derive/src/from_request/parse.rs PathMap::build")],["decoded variant for HEAD requests"]),
p("C05","Declarations are rejected as overlapping exactly if they are",
"A type two of whose routes have different patterns (whatever their methods) is rejected at compile time if some path matches both, as is one that declares the same method twice for equivalent patterns; a path reported in the message does match two of the routes. Types without such a pair are accepted.",
["programs"],"all pairs of route patterns",
"The space of pairs of patterns is unbounded; tests list about twenty pairs.",
[PA],[("search for a common path","derive/src/from_request/parse.rs RoutePath::find_overlap")],["derive's panic message"]),
p("C06","Fallbacks and forwards see the request untouched and merge refusals",
"A request that matches none of a type's own routes is decoded by the type's fallback if it has one, and a route's forwarded field decodes the same request with the body, headers, version, extensions and context intact; own routes take precedence. Errors of the inner type are passed on as they are, except that if both know the path but not the method, the 405 lists the methods of both.",
["inputs","programs","schedules"],"all requests, inner results and readiness schedules",
"Combinations of inner and outer routes per path and the timing of the inner future are not sampled by tests.",
[R],[("fallback generation and merging of wrong-method errors","derive/src/from_request/mod.rs"),("wrong_method","src/error.rs")],["decoded value, error of a type with #[forward]"]),
p("C07","Guards run in order, first failure wins, nothing runs behind it",
"The guards of the chosen variant run one after another in the order of declaration, each started only when the one before has succeeded, followed by body or forwarded field; the request fails with exactly the first error and nothing after it is started. No guard or body of another route, and none at all for a refused request, is ever run.",
["inputs","schedules","fault_sequences"],"all combinations of readiness and failure of each guard",
"Tests have guards that answer at once; interleavings of pending and failing guards are not covered.",
[R],[("chain of guard futures","derive/src/from_request/mod.rs")],["calls of Guard::from_request, FromBody::from_body"]),
p("C08","Query parameters are what deserializing the raw query gives",
"A field for query parameters holds exactly what deserializing the request's raw query (the empty string if there is none) gives; an optional one is absent exactly if the query is missing or empty. A query that does not deserialize is refused with 400 carrying the error.",
["inputs"],"all query strings","Percent-encoding, empty pairs, repeated names and missing queries form an unbounded space.",
[R,"src/query.rs"],[("query deserialization","src/query.rs, derive/src/from_request/mod.rs")],["query_params fields"]),
p("C09","Bodies decode as a whole, however they arrive",
"Decoding a form or JSON body gives exactly what decoding the concatenation of its pieces gives, however the body is cut into pieces and delayed. Errors of the body stream and of the decoder are passed on and never turned into success; a route without a body field does not read the body.",
["inputs","schedules","fault_sequences"],"all bodies, cuts, pauses and breaks","Tests send a body in one piece.",
["src/body.rs",R],[("concatenation and deserialization","src/body.rs")],["FromBody::from_body"]),
p("C10","Errors keep status, cause and methods, and respond accordingly",
"An error made from a status keeps it, its cause and its list of methods exactly, and statuses that are no client or server errors are refused when making one. The response for an error has exactly that status and, only if it is 405, one Allow header with exactly the listed methods in order.",
["inputs"],"all status codes, causes and lists of methods","Tests try two or three statuses.",
["src/error.rs"],[("Error and its response","src/error.rs")],["Error::response","Error::http_status"]),
p("C11","Services call the handler once per decodable request and answer the rest",
"For every request, a service calls its handler exactly once if the request decodes, with the decoded value and the original request, and answers with the handler's response unchanged, except that the body is empty for HEAD; otherwise the handler is not called. Errors of the library, of decoding or of the handler, become their response; foreign errors are passed on.",
["inputs","schedules","histories"],"all requests, handler results and readiness schedules","Tests do not exercise services beyond construction examples.",
["src/service.rs"],[("Service::call of both services","src/service.rs")],["Service::call"]),
p("C12","Panics of an inner service become the handler's response, nothing else does",
"Wherever an inner service panics (in the call or in any poll), the panic handler is called exactly once with the original payload and its result is the service's result; if it does not panic, its result is passed on unchanged and the handler is not called; the inner service's readiness is passed on, too. The service can be used again afterwards.",
["fault_sequences","schedules","histories"],"all places of panic, payloads and later calls","No test panics inside polls or after pending.",
["src/service.rs"],[("catch_unwind around call and polls","src/service.rs CatchUnwind")],["Service::call"]),
p("C13","Blocking work runs exactly once, in the pool, and its result is kept",
"A closure handed over as blocking work is run exactly once, inside the pool's blocking section, when the future is driven to its end, however often there is no slot at first, and the future's result is the closure's own. A future dropped before that never runs it.",
["schedules","inputs"],"all schedules of slot availability, all results","Tests never see a full pool.",
["src/lib.rs"],[("blocking","src/lib.rs")],["blocking"]),
p("C14","Contexts reach guards, bodies and inner types by reference to the right part",
"Every guard, body and inner type receives the context handed to the outer type: itself, the marked field of the type it asks for, or the empty context, with the current values, at any depth of forwarding.",
["inputs","programs"],"all context values and shapes of declarations","Tests only check that such declarations compile.",
["derive/src/request_context.rs",R],[("derived conversions","derive/src/request_context.rs"),("context passed on","derive/src/from_request/mod.rs")],["Guard::from_request","FromBody::from_body"]),
p("C15","Decoding sees all of the request, synchronously as asynchronously",
"Decoding a complete request shows method, target, version, headers, extensions, body and context to the request type unchanged, exactly once; the synchronous way gives the same result as driving the asynchronous one to its end, also when it is not ready at once.",
["inputs","schedules"],"all requests and readiness schedules","Tests decode synchronously and look at the variant only.",
["src/lib.rs"],[("splitting the request, blocking on the future","src/lib.rs FromRequest::from_request, from_request_sync")],["FromRequest::from_request","FromRequest::from_request_sync"]),
p("C16","Route strings mean what is documented, and malformed ones are rejected",
"A route string is rejected at compile time exactly if it neither begins with `/` nor is `*`, or if a segment enclosed in braces is no placeholder (an identifier other than `_`, optionally followed by `...`), a placeholder is repeated, a rest is not the last segment, or a placeholder is not a field of the variant. Every other string is accepted, with every segment not enclosed in braces as a literal.",
["programs","inputs"],"all route strings","Tests list about twenty strings.",
[PA],[("parsing of route strings","derive/src/from_request/parse.rs RoutePath::parse")],["derive's panics","matched paths"]),
p("C17","Clones and made services behave like the original",
"A service obtained by cloning, or from the service-making wrappers, for whatever connection, answers every request as the original does.",
["inputs","histories"],"all requests and ways to obtain a service","No test obtains more than one service.",
["src/service.rs"],[("Clone and MakeService implementations","src/service.rs")],["MakeService::make_service","Clone::clone"]),
p("C18","Contradictory declarations are rejected, and attributes of others ignored",
"A type is rejected at compile time if a field has two roles (of placeholder, `#[body]`, `#[query_params]`, `#[forward]`), a role other than placeholder occurs twice in a variant, `#[body]` and `#[forward]` or a body or query without a route are combined, there are two fallbacks or no way to get the type at all, or one of the derive's attributes is malformed or misplaced (for contexts: `#[as_ref]` other than once on a struct's field). Any other combination is accepted, whatever attributes of the compiler or other tools there are.",
["programs"],"all names, forms and places of attributes","Tests list single examples per rule.",
[PA,"derive/src/request_context.rs"],[("roles of fields","derive/src/from_request/parse.rs VariantData::parse"),("attributes of types and variants","derive/src/from_request/parse.rs ItemData::parse"),("as_ref","derive/src/request_context.rs")],["derive's panics"]),
]
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in L))
TECH="symbolic execution of the compiled code's LLVM IR, assertions decided by z3, counterexamples replayed natively"
NOTE={}
D="Holds for every input within the bounds in props.py for the declarations of the harness; trusts the executor tools/lsx, z3, rustc, and the models of regex, tokio's runtime and tokio_threadpool (sampled paths are replayed against the real crates on every run)."
import sys; sys.path.insert(0,'/verif')
from props import PROPS
man=dict(version=1,setup_cmd="python3 check.py --setup",checks=[],not_applicable=[])
for x in L:
    i=x["id"]
    if i in PROPS: man["checks"].append(dict(property=i,quick_cmd=f"python3 check.py {i} --tier quick",thorough_cmd=f"python3 check.py {i} --tier thorough",technique=TECH,level="other",level_note=D))
    else: man["not_applicable"].append(dict(property=i,reason="the check is being built (symbolic execution of the derive's route parser)"))
json.dump(man,open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json')); [jsonschema.validate(x,S) for x in L]
jsonschema.validate(man,json.load(open('/root/.vp/MANIFEST.schema.json')))
for x in L: assert x["statement"].count('. ')<=3,(x["id"])
