"""What each check runs, and within which bounds (DESIGN.md says how)."""
def H(name, bounds, what, **k):
    return dict(name=name, module=name.rsplit("_", 1)[0], bounds=bounds, what=what, **k)
M = "any of 9 standard methods or one extension method; "
def P(n, d=None): return M + f"any valid origin-form path of at most {n}" + (f" ({d} in the thorough tier)" if d else "") + " bytes, or `*`"
HOW = ("The code that #[derive(FromRequest)] or #[derive(RequestContext)] generates for the declarations in the harness, the hyperdrive library and everything they call "
       "(http, hyper, futures, serde, std, ... as compiled by rustc; regex, tokio's single-threaded runtime and tokio_threadpool::blocking are models) is executed symbolically from the LLVM IR "
       "that rustc emits for /repo's current tree; each byte of the harness's tape is a symbolic variable, each feasible path is followed, and each assertion is decided by z3 under the "
       "path's condition (by byte domains or constant folding where that already settles it). Counterexamples, witnesses and sampled paths are replayed against a native build with the real crates. ")
DHOW = ("The derive macro itself (/repo/derive/src/lib.rs, compiled as an ordinary library with the real syn and proc-macro2; quote! leaves out the code it would generate, indexmap is searched linearly) "
        "is executed symbolically on a syntax tree whose route texts are symbolic; each feasible path is followed, and each assertion is decided by z3 under the path's condition (by byte domains or constant folding "
        "where that already settles it). Counterexamples, witnesses and sampled paths are replayed against a native build with the real quote and indexmap. ")
PROPS = {
 "C01": dict(explanation=HOW + "Oracle: segment-wise matching written independently in harness/src/spec.rs.", harnesses=[
  H("routing_a", P(13, 18), "mixed routes, several on a variant, placeholders, a rest, literals with a dot"),
  H("routing_r", P(10), "the same declarations in reverse order"),
  H("routing_b", P(6), "literals full of regex metacharacters; every method"),
  H("routing_c", P(9), "rests, `*`, a literal asterisk"),
  H("routing_e", P(8), "a rest that takes everything, next to `*`"),
  H("routing_d", P(7), "trailing slashes and empty segments"),
  H("routing_m", P(4), "more than ten paths; variants without routes"),
  H("routing_s", P(9), "a struct with two routes"),
  H("routing_f", M + "any absolute-form target with a path of at most 7 bytes", "absolute-form request targets")]),
 "C02": dict(explanation=HOW + "Oracle: segment boundaries of the path and hand-written digit and letter classes.", harnesses=[
  H("captures_a", P(9, 12), "one pattern under several methods with different types, fields in another order than placeholders, typed rest"),
  H("captures_b", P(9), "three placeholders, two routes on a variant"),
  H("captures_d", P(9), "two placeholders and a rest"),
  H("captures_e", P(9), "u8 from the standard library's FromStr, struct"),
  H("captures_f", "GET, POST or PATCH; any path of at most 6 bytes", "the cause carried by the 404"),
  H("captures_g", P(6), "generic fields")]),
 "C03": dict(explanation=HOW + "Oracle: union of the methods of the declared routes whose pattern and types take the path.", harnesses=[
  H("methods_a", P(8, 11), "thirteen variants sharing paths, with different types, also of two placeholders"),
  H("methods_b", P(6), "several methods and paths on one struct")]),
 "C04": dict(explanation=HOW + "Oracle: GET routes also take HEAD unless HEAD is declared for the same path.", harnesses=[
  H("methods_h", P(7), "HEAD declared before, after, alone, on the same variant (for the same path or another), implied"),
  H("methods_i", "GET and HEAD for any path of at most 8 bytes", "the two agree where HEAD is implied")]),
 "C05": dict(explanation=DHOW + "Oracle: a segment-wise notion of overlap, itself validated against matching by declare_v.", harnesses=[
  H("declare_o", "two routes of two variants: patterns of at most two segments (three for the second in the thorough tier), each literal empty or of any one character, placeholder or rest; GET/GET, GET/POST, GET/HEAD, HEAD/GET", "all pairs of patterns; also the path shown in the message"),
  H("declare_t", "three routes, GET or POST, of at most one (two) segments with literals of at most one letter; the first two on one variant or two", "each route is compared with each other"),
  H("declare_v", "as declare_o; any path of at most five bytes", "the oracle: patterns overlap exactly if some path matches both")]),
 "C06": dict(explanation=HOW + "Oracle: own routes first, then the inner type; merged method lists.", harnesses=[
  H("forward_a", P(6), "fallback with overlapping inner and outer paths, typed placeholders on both sides"),
  H("forward_b", P(5), "the same with the fallback declared first"),
  H("forward_p", P(4) + "; bodies of up to 2 bytes in pieces with pauses; inner futures pending up to twice or failing", "what the inner type is shown and what becomes of its answer"),
  H("forward_f", P(4) + "; inner errors of any status 400-599 or of foreign type", "errors of the inner type, in the fallback and on a route")]),
 "C07": dict(explanation=HOW + "Oracle: the event log of the scripted guards, bodies and inner types.", harnesses=[
  H("guards_a", "five steps, each pending up to once and failing or not", "four guards (one synchronous) and a body, declared interleaved with other fields"),
  H("guards_w", "each step pending up to twice and failing or not", "guards in front of a forward in a generic wrapper without a route"),
  H("guards_r", "each step pending up to once and failing or not", "guards on one route of several, forward inside a route"),
  H("guards_n", P(5), "requests refused by path, method or captured text"),
  H("guards_q", "any query of up to 3 bytes that is no valid one", "requests refused by their query")]),
 "C08": dict(explanation=HOW + "Oracle: serde_urlencoded applied to the raw query (the same library, called directly).", harnesses=[
  H("query_a", "no query, or any of up to 4 (5) valid bytes", "a required number"),
  H("query_o", "no query, or any of up to 4 (5) valid bytes", "an optional structure"),
  H("query_p", "no query, or any of up to 4 (5) valid bytes", "all pairs in order"),
  H("query_s", "no query, or any of up to 3 (4) valid bytes; any placeholder byte", "defaults and optional fields, next to a placeholder"),
  H("query_r", P(6) + "; no query or any of 2 bytes", "the query has no influence on routing")]),
 "C09": dict(explanation=HOW + "Oracle: serde_urlencoded or serde_json applied to the concatenated bytes.", harnesses=[
  H("body_f", "any body of up to 3 (4) ASCII bytes in up to three pieces (any may be empty), a pause before each, ending or failing", "HtmlForm of a number"),
  H("body_p", "as body_f", "HtmlForm of all pairs"),
  H("body_j", "as body_f, any bytes but `-`, `.`, `e`, `E`", "Json of a byte list"),
  H("body_b", "up to 4 (6) bytes, any but digits, `-` and `\"`", "Json of a boolean"),
  H("body_r", "up to 4 (5) bytes, any but digits, `-` and `\"`", "through a declared route"),
  H("body_s", "as body_f with 3 bytes", "through another route of the same type"),
  H("body_n", "GET, PUT or DELETE, any path of up to 3 bytes", "a route without a body field leaves the body alone")]),
 "C10": dict(explanation=HOW + "Oracle: the arguments given to the constructors.", harnesses=[
  H("error_s", "every status code 100-599", "from a status"),
  H("error_c", "every status code 100-599, any cause value", "with a cause; as a future"),
  H("error_m", "any list of up to 2 (3) of the nine standard methods", "405 with a list of methods"),
  H("error_d", "eight status codes", "text shown to people")]),
 "C11": dict(explanation=HOW + "Oracle: the declarations, and the response the handler returned.", harnesses=[
  H("service_a", P(5) + "; handler pending up to twice, any status 200-454, failing with a foreign error, one of hyperdrive's, or not", "AsyncService"),
  H("service_s", P(5) + "; up to two times no blocking slot; any status 200-454", "SyncService, whose handler runs inside `blocking`"),
  H("service_c", "HEAD or GET; bodies of up to 3 bytes in pieces; any context value; request type and handler pending and failing or not; two requests in a row", "context, body and repeated use")]),
 "C12": dict(explanation=HOW + "Oracle: the script of the inner service.", harnesses=[
  H("unwind_a", "two calls; each panics in the call, in a poll, at completion or not at all; payload a value, a message or a formatted message; inner and handler pending up to twice and failing or not; fresh, cloned or made for a connection", "any inner service"),
  H("unwind_s", "GET, HEAD or POST; panics in the guard, inner request type, handler, or handler's future; each step pending up to once and failing or not", "around AsyncService")]),
 "C13": dict(explanation=HOW + "The pool is a model: no slot for a symbolic number of polls, then the closure runs in place. Oracle: the closure's own value.", harnesses=[
  H("blocking_a", "up to three polls without a slot; any value; success or failure", "one closure"),
  H("blocking_d", "up to three polls without a slot", "a future dropped before it had a slot"),
  H("blocking_m", "up to three polls without a slot; success or failure of each", "two closures one after the other"),
  H("blocking_p", "as blocking_a, steps before and after pending up to twice", "between other steps of a task")]),
 "C14": dict(explanation=HOW + "Oracle: the context value handed in.", harnesses=[
  H("context_r", "any values in the fields", "the derived conversions lead to the marked fields"),
  H("context_c", "any values in the fields; six methods; steps pending up to once and failing or not", "guards, bodies and inner types on routes and in the fallback"),
  H("context_w", "any values; steps pending up to once and failing or not", "nested forwards without routes"),
  H("context_t", "any values; steps pending up to once and failing or not", "tuple, generic, enum and absent contexts")]),
 "C15": dict(explanation=HOW + "Oracle: the request as built by the harness.", harnesses=[
  H("whole_r", P(3) + "; no query or any of one byte; four HTTP versions; body of up to 2 bytes in pieces, pauses, breaking off or not; type pending up to twice and failing or not", "a hand-written request type, asynchronously and synchronously"),
  H("whole_d", P(2) + "; otherwise as whole_r", "derived types with guard, body and forward, asynchronously and synchronously")]),
 "C16": dict(explanation=DHOW + "Oracle: the grammar of patterns, written independently in harness/src/declare.rs.", harnesses=[
  H("declare_p", "any route text of at most five (seven) printable characters on a struct with the fields a and b", "malformed patterns, duplicate placeholders, placeholders that are no fields"),
  H("declare_d", "up to three placeholders (on one route; two on two) with any one-letter names, each maybe a rest, a trailing slash or not", "repeated placeholders, order of placeholders, fields"),
  H("declare_i", "any text of at most four (six) printable characters between braces, alone, followed by /{bc}'s text, or behind a letter", "what a placeholder may look like")]),
 "C18": dict(explanation=DHOW + "Oracle: the rules of the documentation, over the names and forms of the attributes.", harnesses=[
  H("declare_f", "attribute names of any lower-case letters with the lengths of the derive's own (underscores where those have them); up to two attributes on the first of three fields, one on the others; no route, one with a placeholder, one without", "roles of fields"),
  H("declare_a", "an attribute of any such name in eight forms, on an enum or one of its variants", "which attributes are valid where, and which forms; those of others are ignored"),
  H("declare_s", "the same on a struct (other than body, query_params, forward)", "attributes of a struct"),
  H("declare_b", "three variants, each with a route or not, and with a forwarded field or not", "at most one fallback, at least one way to get the type"),
  H("declare_c", "up to three attributes of any such name in three forms, on a struct with named or unnamed fields or an enum, or on their fields and variants", "RequestContext")]),
 "C17": dict(explanation=HOW + "Oracle: as for the original service.", harnesses=[
  H("service_m", P(4) + "; any status 200-454", "clones, services made by the service itself and by cloning")]),
}
# harnesses of large and combined declarations, and of several things at a time
EXTRA = {h["name"]: h for h in [
  H("headers_r", "eleven pairs of method and path; one of 34 well-known headers with any value of 1, 3, 4 or 6 visible bytes or a common one, or all of them; four HTTP versions", "headers and versions have no say in routing"),
  H("headers_b", "as headers_r; form or JSON, two digits, GET or POST", "nor in what a body is"),
  H("headers_s", "GET, HEAD or POST; four HTTP versions; eleven headers, any byte or a common value; four statuses; AsyncService, SyncService, CatchUnwind", "nor in what a service answers"),
  H("routing_l", P(8), "literals of all characters that paths can have, escapes, braces and others that they cannot"),
  H("body_x", "nine things before and nine behind a value, in one piece or two; form or JSON", "byte order marks, blanks, separators around a body"),
  H("error_n", "six statuses of error and cause, seven kinds of cause", "causes that are errors of the library, boxed, text"),
  H("error_l", "lists of up to twelve methods, extension methods among them", "long and static lists of methods"),
  H("blocking_o", "up to two polls", "outside of a pool"),
  H("service_e", "seven kinds of errors, own or foreign, with own ones as causes; any status 400-599; three methods; AsyncService and SyncService", "errors of decoding"),
  H("large_m", "300 connections at a time, of which any of eight is used; any byte", "many services made"),
  H("methods_g", P(5), "GET routes with bodies, queries, guards and forwards"),
  H("large_r", "GET, PUT, POST or DELETE; any valid path of at most 6 bytes", "fifty paths on one type"),
  H("large_c", "twelve placeholders of any one byte each; GET or POST", "more than ten captures, in another order than the fields"),
  H("large_p", "paths of up to 290 bytes, any bytes at both ends of each placeholder", "long paths"),
  H("large_q", "queries of some 160 bytes with any letters; required or optional", "long queries"),
  H("large_b", "bodies of 10 kB in 21 pieces, a hundred of the bytes any letters, pauses, ending or failing; form or JSON", "long bodies"),
  H("large_g", "any of eleven steps failing, one pending up to five times", "ten guards and a body"),
  H("large_h", "twenty headers of any visible byte; bodies of 0, 20 or 40 pieces; type pending up to seven times; asynchronously and synchronously", "large requests"),
  H("turns_s", "two requests, GET or HEAD, in any order of polls; each pending and failing or not; same service or its clone; the first dropped at its first pause or not", "two requests to AsyncService in flight"),
  H("turns_u", "two requests, each panicking in one of three places or not; otherwise as turns_s", "two requests to CatchUnwind in flight"),
  H("turns_d", "two requests decoded in any order of polls; one failing or not, the other dropped or not", "two requests being decoded"),
  H("turns_b", "up to three polls without a slot; two closures in any order of polls, succeeding or not, one dropped or not", "two blocking closures at a time"),
  H("turns_m", "any context value; GET or HEAD; request type failing or not; panics or not; six ways of cloning and making, each service used up to three times", "clones of AsyncService, SyncService and CatchUnwind with a context"),
  H("mix_a", "five shapes of paths with any two bytes; GET, PUT, POST or DELETE; no query, an empty one or `n=` and any byte; body of 0 or 2 bytes in pieces; any context; five steps failing or pending or not", "placeholders, query, guards, body, forward, fallback, context and attributes of others on one type"),
  H("mix_f", P(4) + "; two guards pending up to once and failing or not", "fallback behind guards, through a type without routes")]}
for p in list(PROPS.values()):
    for h in p["harnesses"]: EXTRA.setdefault(h["name"], h)
for p, l in {
  "C01": "large_r large_p query_r captures_a forward_a mix_a headers_r routing_l", "C02": "large_c large_p forward_a mix_a", "C03": "methods_h query_r large_r service_a headers_r methods_g", "C04": "routing_a captures_a forward_a methods_g headers_r",
  "C06": "mix_a mix_f whole_d context_w methods_g", "C07": "large_g mix_a mix_f turns_d", "C08": "large_q mix_a", "C09": "large_b forward_p whole_r mix_a headers_b body_x", "C10": "service_a captures_f forward_f methods_a error_n error_l service_e",
  "C11": "turns_s turns_m unwind_s service_m headers_s service_e", "C12": "turns_u turns_m headers_s", "C13": "turns_b service_s blocking_o", "C14": "mix_a service_c turns_m", "C15": "large_h turns_d forward_p service_c headers_b", "C16": "routing_b routing_c routing_d routing_l",
  "C17": "turns_m turns_s turns_u unwind_a service_c large_m headers_s", "C18": "mix_a guards_a query_s"}.items():
    PROPS[p]["harnesses"] += [dict(EXTRA[n]) for n in l.split() if n not in [h["name"] for h in PROPS[p]["harnesses"]]]
