"""Writes properties.jsonl and MANIFEST.json.  Run after editing."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(pid, title, statement, over, text, cant, files, mechanism,
         observe, note):
    P.append(dict(
        id=pid, title=title, statement=statement, over=over, text=text,
        cant=cant, files=files, mechanism=mechanism, observe=observe,
        note=note))


prop('C01', 'A path matches exactly the route the documentation says wins',
     'For every set of routes, registration order and requested path, '
     'matching returns the endpoint and converted values of the most specific '
     'route that fits (static parts before converters, longer before shorter, '
     'lower weight before higher), asks for a redirect when only a trailing '
     'slash is missing, and reports not found otherwise. Each converter '
     '(string, any, path, int with fixed digits/min/max, float, uuid) '
     'accepts exactly the texts it documents and yields values of the '
     'right type; subdomain, host and mount point are taken into account.',
     ['inputs', 'configurations'],
     'every map of routes (any order, strict or not, defaults, subdomains, '
     'hosts) and every path',
     'The tests match a few dozen hand-picked paths on a few maps; the order '
     'of precedence matters for every combination of routes and paths.',
     ['verktyg/routing.py'],
     [('match ordering and matching', 'routing.py Route.compile, '
       'match_compare_key, Route.match, MapAdapter.match'),
      ('converters', 'routing.py BaseConverter and subclasses')],
     ['MapAdapter.match', 'MapAdapter.test', 'URLMap.bind_to_environ'],
     'All maps of up to three catalogue routes in all orders, all paths of '
     'up to three segments.')

prop('C02', 'A URL built for an endpoint leads back to that endpoint',
     'If building a URL for an endpoint and values succeeds, requesting that '
     'URL matches that endpoint with equal values (every extra value appears '
     'in the query string, every value of a multi-valued one, None left out). '
     'Building picks the route whose placeholders and defaults fit the given '
     'values and fails with a build error exactly when none does. The URL is '
     'absolute only when it leads to another host or when asked for.',
     ['inputs', 'configurations'],
     'every set of routes of an endpoint, every converter, every value the '
     'converter accepts, including reserved and non-ASCII characters',
     'The tests build about twenty URLs with tame values.',
     ['verktyg/routing.py'],
     [('building', 'routing.py Route.build, suitable_for, '
       'build_compare_key, MapAdapter.build'),
      ('converters', 'routing.py to_url')],
     ['MapAdapter.build', 'MapAdapter.match', 'Application.url_for'],
     'Every converter in every frame with every listed value, every choice '
     'among up to three routes, every literal of up to four symbols.')

prop('C03', 'Router redirects end at the canonical URL and keep the request',
     'Following the redirects issued for a request (missing slash, default '
     'values, aliases, explicit targets) always ends, after finitely many '
     'steps, at a URL that matches the same endpoint with the same values. '
     'The host, the mount point and, for slash, default and alias redirects, '
     'the whole query string survive each redirect, and a route that would '
     'not accept the path never triggers one.',
     ['inputs', 'configurations'],
     'every map with slashes, defaults, aliases and redirects, every start '
     'path, query form and mount point',
     'Tests check single redirects of a few maps; loops, lost queries and '
     'interplay of several redirecting routes are not explored.',
     ['verktyg/routing.py', 'verktyg/application.py'],
     [('redirects', 'routing.py MapAdapter.match, get_default_redirect, '
       'make_redirect_url, make_alias_redirect_url')],
     ['MapAdapter.match', 'RequestRedirect.new_url'],
     'Every ordered map of up to three redirecting routes, followed to the '
     'end from every start path.')

prop('C04', 'A URL map behaves as the set of its routes whatever its history',
     'The answers of a map to match, build, enumerate and endpoint questions '
     'depend only on the set of routes added so far and their order, never on '
     'when lookups happened in between, how the routes were batched, or which '
     'nesting of factories (submount, subdomain, endpoint prefix, templates, '
     'copies of routes) produced them. A factory yields exactly the routes '
     'one would write by hand, with every option of the original kept.',
     ['histories', 'configurations'],
     'every sequence of adding routes, matching, building and enumerating; '
     'every nesting of route factories',
     'Tests build each map once and then only read it.',
     ['verktyg/routing.py'],
     [('lazy reordering', 'routing.py URLMap.add_routes, URLMap.update'),
      ('factories', 'routing.py Submount, Subdomain, EndpointPrefix, '
       'RouteTemplate, Route.empty')],
     ['URLMap.add_routes', 'URLMap.iter_routes', 'MapAdapter.match',
      'MapAdapter.build'],
     'Every operation sequence of up to four (thorough: six) operations.')

prop('C05', 'Requests handled at the same time do not affect each other',
     'When several threads use one application, URL map or dispatcher at the '
     'same time, including for the very first requests, each gets exactly '
     'the response (or match, or URL) it would get alone, under every '
     'interleaving. What they leave behind still gives every later request '
     'its own correct answer.',
     ['schedules'],
     'every interleaving of two or three threads, cold and warm',
     'No test starts a thread.',
     ['verktyg/routing.py', 'verktyg/application.py', 'verktyg/dispatch.py',
      'verktyg/exception_dispatch.py', 'verktyg/wsgi.py'],
     [('copy on reorder', 'routing.py URLMap.update'),
      ('no per-request state on shared objects', 'application.py '
       'BaseApplication, dispatch.py Dispatcher.lookup')],
     ['Application.__call__', 'MapAdapter.match', 'MapAdapter.build',
      'Dispatcher.lookup'],
     'Real threads under a controlled scheduler: all schedules with one '
     'preemption at bytecodes, two at calls. Code outside of the package is '
     'atomic.')

prop('C06', 'Content negotiation picks the best acceptable representation',
     'Given well-formed Accept, Accept-Language and Accept-Charset headers, '
     'selection judges each representation, per header, by the most specific '
     'range that covers it and returns the best one by content type, then '
     'language, then charset (the more specific match first, then the higher '
     'quality; one that does not state its type last), then its own source '
     'quality; ties go to the one added last. Representations that are not '
     'covered or have quality zero are never chosen, and not acceptable is '
     'reported exactly when nothing is left.',
     ['inputs', 'configurations'],
     'every header of up to three ranges with qualities and parameters, '
     'every list of up to three representations',
     'Tests sample a few headers against two representations.',
     ['verktyg/accept/__init__.py', 'verktyg/accept/_base.py',
      'verktyg/accept/content_type.py', 'verktyg/accept/language.py',
      'verktyg/accept/charset.py'],
     [('selection', 'accept/__init__.py select_representation'),
      ('ranges', 'accept/_base.py, content_type.py, language.py, '
       'charset.py')],
     ['select_representation', 'parse_accept_header'],
     'Compared with an independent model of RFC 7231 negotiation.')

prop('C07', 'Dispatch finds the handler bound to endpoint, method and type',
     'Looking up an endpoint, a method and accept headers yields the binding '
     'content negotiation selects among those registered under that endpoint '
     'and method (HEAD falls back to GET), not implemented for an unknown '
     'endpoint, method not allowed for an unbound method and not acceptable '
     'otherwise, however the bindings were added or nested. Function, JSON '
     'and class views answer exactly the methods and types they declare; '
     'JSON views turn results into JSON, nothing into no content, and leave '
     'responses alone.',
     ['inputs', 'configurations', 'histories'],
     'every sequence of adding and nesting bindings and views, every '
     'endpoint, method and accept header',
     'Tests look up a handful of bindings once.',
     ['verktyg/dispatch.py', 'verktyg/views.py', 'verktyg/application.py'],
     [('index', 'dispatch.py Dispatcher'), ('views', 'views.py')],
     ['Dispatcher.lookup', 'View', 'JsonView', 'ClassView',
      'Application.__call__'],
     'Every set of up to three bindings in every order, histories of up to '
     'four operations.')

prop('C08', 'An exception reaches the most specific acceptable handler',
     'For every exception class and accept headers, lookup walks the method '
     'resolution order and returns the negotiated handler of the first class '
     'that has an acceptable one, or nothing. An application turns any '
     'exception raised while matching, dispatching or handling into that '
     'handler\'s response, and lets it propagate unchanged when there is no '
     'handler; nesting and registration history make no difference.',
     ['inputs', 'configurations', 'histories'],
     'every hierarchy position, every set of handlers in every order, every '
     'place an exception can come from',
     'Tests use one or two handlers and flat exceptions.',
     ['verktyg/exception_dispatch.py', 'verktyg/application.py'],
     [('lookup', 'exception_dispatch.py ExceptionDispatcher.lookup'),
      ('catching', 'application.py _get_response')],
     ['ExceptionDispatcher.lookup', 'Application.__call__'],
     'Every set of up to two (thorough: three) handlers of a pool over a '
     'hierarchy with multiple inheritance.')

prop('C09', 'Every request and response is closed exactly once',
     'However a request ends (normally, an exception in the handler, in the '
     'body at any chunk or in a close callback, or the client going away at '
     'any point), the close callbacks of the request and the response and '
     'the close method of the body each run exactly once, and nothing is '
     'sent after. Interleaved requests do not close each other.',
     ['fault_sequences', 'crash_points', 'schedules'],
     'every fault point and client disconnect of a request, every '
     'interleaving of two streamed responses',
     'Tests close a few responses normally.',
     ['verktyg/application.py', 'verktyg/responses.py', 'verktyg/requests.py',
      'verktyg/wsgi.py'],
     [('closing', 'application.py _wsgi_inner; responses.py close, '
       'call_on_close; wsgi.py ClosingIterator; requests.py close')],
     ['Application.__call__', 'BaseResponse.__call__', 'ClosingIterator'],
     'All fault points enumerated, not sampled.')

prop('C10', 'A response sends exactly its body, status and matching headers',
     'After any history of setting data, appending to the stream, freezing, '
     'making a sequence and reading back, a response sends exactly the '
     'encoded bytes of its body, with the status it was given and, whenever '
     'it sends a content length, one equal to the number of body bytes. '
     'HEAD, 1xx, 204 and 304 responses send no body and the headers that go '
     'with that; a Location is absolute and ASCII; text types carry the '
     'charset.',
     ['histories', 'inputs'],
     'every sequence of operations on a response, every status, method and '
     'location',
     'Tests exercise single operations on one response.',
     ['verktyg/responses.py', 'verktyg/utils.py'],
     [('sending', 'responses.py BaseResponse.get_wsgi_headers, '
       'get_app_iter, set_data, make_sequence, freeze; ResponseStream'),
      ('content types', 'utils.py get_content_type')],
     ['BaseResponse.__call__', 'BaseResponse.get_data', 'force_type',
      'from_app'],
     'All operation sequences of up to three (thorough: four) steps.')

prop('C11', 'Conditional requests are answered as the validators demand',
     'A GET or HEAD request gets not modified if and only if its '
     'If-None-Match covers the entity tag (a strong tag only a strong one, a weak tag either) or, without a '
     'tag to compare, its If-Modified-Since is not before the last '
     'modification, and never for other methods. A caching client that '
     'revalidates always ends up with the current content. Entity tags and '
     'sets of them survive being written and parsed, weak ones staying weak.',
     ['inputs', 'histories'],
     'every combination of validators and conditional headers; every history '
     'of changes and cached requests',
     'Tests check one tag and one date.',
     ['verktyg/http/cache_control.py', 'verktyg/http/basic.py',
      'verktyg/responses.py'],
     [('decision', 'http/cache_control.py is_resource_modified'),
      ('tags', 'http/cache_control.py ETags, parse_etags, quote_etag, '
       'unquote_etag, generate_etag'),
      ('responses', 'responses.py ETagResponseMixin.make_conditional, '
       'add_etag')],
     ['is_resource_modified', 'Response.make_conditional', 'ETags'],
     'Compared with an independent model; cache histories of up to five '
     '(thorough: seven) steps.')

prop('C12', 'Multi-value dictionaries behave like a list of key/value pairs',
     'After any sequence of operations, every way of looking at a multi '
     'dict (first value, all values of a key, items, lists, length, '
     'membership, equality, copies, pickling, conversion) agrees with a plain '
     'list of pairs to which the same operations were applied; the ordered '
     'variant also keeps the global order, and a combined one shows its '
     'parts in order. Missing keys raise an error that is both a key error '
     'and a bad request, and typed access returns the default when the '
     'conversion fails.',
     ['histories', 'inputs'],
     'every sequence of operations over a few keys and values',
     'Tests run short fixed sequences per class.',
     ['verktyg/datastructures.py'],
     [('containers', 'datastructures.py MultiDict, OrderedMultiDict, '
       'CombinedMultiDict, TypeConversionDict')],
     ['MultiDict', 'OrderedMultiDict', 'CombinedMultiDict',
      'ImmutableMultiDict', 'ImmutableOrderedMultiDict'],
     'All operation sequences up to length three (thorough: four, seven on '
     'a smaller alphabet).')

prop('C13', 'Immutable containers never change; observable ones always tell',
     'No sequence of public operations on an immutable list, dictionary or '
     'multi dictionary (or on anything it hands out) changes it: each '
     'mutator raises a type error and leaves it untouched, its hash agrees '
     'with equality, and copies are mutable and independent where promised. '
     'A callback dictionary calls back after every operation that can change '
     'it, with the change already visible, and for no reading operation.',
     ['histories', 'programs'],
     'every sequence of mutator calls on every immutable container, every '
     'sequence of operations on an observable one',
     'Tests try a handful of mutators once.',
     ['verktyg/datastructures.py'],
     [('guards', 'datastructures.py Immutable*Mixin, UpdateDictMixin')],
     ['ImmutableDict', 'ImmutableList', 'ImmutableMultiDict',
      'CallbackDict', 'request.args', 'app.config'],
     'All sequences of up to two (thorough: three) mutators.')

prop('C14', 'Headers are an ordered, case-insensitive list without newlines',
     'After any sequence of operations, headers equal the list of pairs to '
     'which the same operations were applied, looked up without regard to '
     'case, with order and duplicates kept; the headers of a request show '
     'exactly the header fields of its environment and cannot be changed. '
     'No operation whatsoever stores a value with a line break in it. '
     'Filtering removes exactly the entity or hop-by-hop headers not '
     'explicitly allowed.',
     ['histories', 'inputs'],
     'every sequence of header operations, every value',
     'Tests perform one operation at a time.',
     ['verktyg/http/basic.py', 'verktyg/wsgi.py'],
     [('list of pairs', 'http/basic.py Headers, _validate_value'),
      ('request headers', 'wsgi.py EnvironHeaders'),
      ('filters', 'http/basic.py remove_entity_headers, '
       'remove_hop_by_hop_headers')],
     ['Headers', 'EnvironHeaders', 'Response.headers'],
     'All operation sequences of up to three (thorough: four) operations.')

prop('C15', 'Structured header views and the headers themselves agree',
     'After any sequence of changes through a view of a response header '
     '(allow, vary, content language, cache control, authenticate, content '
     'range, mimetype parameters, dates, numbers, text) or to the header '
     'itself, reading the header and reading a fresh view give the same '
     'state, namely the last one written; reading changes nothing, an '
     'emptied view removes its header, and unparsable headers read as '
     'absent. A header set keeps order, has no duplicates and ignores case.',
     ['histories'],
     'every sequence of operations on views and headers of a response',
     'Tests set one header and read it once.',
     ['verktyg/responses.py', 'verktyg/http/basic.py',
      'verktyg/http/cache_control.py', 'verktyg/http/auth.py',
      'verktyg/utils.py'],
     [('write through', 'on_update callbacks in responses.py; '
       'utils.py header_property'),
      ('views', 'http/basic.py HeaderSet; http/cache_control.py '
       'CacheControl, ContentRange; http/auth.py WWWAuthenticate')],
     ['Response', 'HeaderSet', 'ResponseCacheControl', 'ContentRange',
      'WWWAuthenticate'],
     'All operation sequences of up to three (thorough: four) operations.')

prop('C16', 'Header values survive dump and parse; parsers survive anything',
     'Any list, dictionary, option list or authentication challenge written '
     'as a header and parsed again gives the same values, whatever special '
     'characters they contain; user name and password of a basic '
     'authorization and all fields of a digest one arrive unchanged. '
     'Parsing arbitrary text never raises and never returns anything but the '
     'documented kind of result.',
     ['inputs'],
     'every value over an alphabet of all special characters',
     'Tests parse well-behaved examples.',
     ['verktyg/http/basic.py', 'verktyg/http/auth.py',
      'verktyg/http/cache_control.py'],
     [('quoting', 'http/basic.py quote_header_value, unquote_header_value, '
       'dump_header, dump_options_header, parse_list_header, '
       'parse_dict_header, parse_options_header'),
      ('authentication', 'http/auth.py')],
     ['parse_*_header', 'dump_header', 'dump_options_header'],
     'All strings of up to five characters over the special characters.')

prop('C17', 'Cookies come back from the client as the server set them',
     'Whatever value a cookie is given, the header has no line break or '
     'unquoted separator, carries exactly the attributes asked for, and a '
     'client sending it back yields the same name and value; deleting makes '
     'it expire. A cookie header from any client parses to its name/value '
     'pairs, each exactly as sent, without affecting its neighbours.',
     ['inputs', 'histories'],
     'every value and attribute combination, every client header, every '
     'history of setting and deleting cookies',
     'Tests set a few cookies with plain values.',
     ['verktyg/http/cookies.py', 'verktyg/responses.py',
      'verktyg/requests.py'],
     [('quoting', 'http/cookies.py _cookie_quote, _cookie_unquote'),
      ('parsing', 'http/cookies.py parse_cookie, dump_cookie')],
     ['dump_cookie', 'parse_cookie', 'Response.set_cookie',
      'Response.delete_cookie', 'Request.cookies'],
     'All values of up to four characters and every code point in range; a '
     'model browser for histories.')

prop('C18', 'Byte ranges select exactly the bytes the client asked for',
     'A range header selects, for every content length, exactly the '
     'positions its specifications denote, never one outside the content, '
     'and malformed, overlapping or unsatisfiable ones select nothing. '
     'Range, Content-Range and If-Range headers survive being written and '
     'parsed, and a content range never holds an invalid interval.',
     ['inputs'],
     'every range header and every content length',
     'Tests check a dozen literal headers.',
     ['verktyg/http/cache_control.py', 'verktyg/http/basic.py'],
     [('ranges', 'http/cache_control.py Range, parse_range_header, '
       'ContentRange, parse_content_range_header, IfRange; http/basic.py '
       'is_byte_range_valid')],
     ['parse_range_header', 'Range.range_for_length',
      'Range.make_content_range', 'ContentRange', 'parse_if_range_header'],
     'All lists of up to two (thorough: three) specifications against all '
     'lengths.')

prop('C19', 'Request bodies are read exactly, however they are cut up',
     'Every sequence of reads on the body of a request returns exactly the '
     'bytes the client sent up to the announced length, never one more, and '
     'a client that goes away early is reported as disconnected. Line and '
     'chunk iteration give the same pieces wherever the data is cut into '
     'buffers, and joining them gives the data back. Uploaded files and '
     'wrapped files deliver their content unchanged, in blocks of the size '
     'asked for, and are closed.',
     ['inputs', 'histories', 'fault_sequences'],
     'every body, every sequence of reads, every way to cut the data into '
     'buffers and every disconnection point',
     'Tests read each stream one way.',
     ['verktyg/wsgi.py', 'verktyg/requests.py', 'verktyg/http/basic.py'],
     [('limits', 'wsgi.py LimitedStream, get_input_stream, '
       'get_content_length'),
      ('splitting', 'wsgi.py make_line_iter, make_chunk_iter'),
      ('files', 'wsgi.py FileWrapper; http/basic.py FileStorage')],
     ['Request.stream', 'Request.get_data', 'make_line_iter',
      'make_chunk_iter', 'FileStorage', 'FileWrapper'],
     'All read sequences of up to three (thorough: four) steps, all cuts.')

prop('C20', 'Static files and mounts get exactly the requests that are theirs',
     'The shared data middleware serves, for every path, exactly the regular '
     'file the first matching export has there (never one outside the '
     'exported folder, never a disallowed one) with the right type, length '
     'and caching headers, answers conditional requests from what it last '
     'sent, closes the file in every case, and passes everything else '
     'unchanged to the wrapped application. The dispatcher middleware calls '
     'the application mounted at the longest matching prefix of whole path '
     'segments and moves exactly that prefix from the path to the script '
     'name.',
     ['inputs', 'configurations', 'histories'],
     'every set of exports or mounts, every path including dot segments, '
     'every history of file changes and cached requests',
     'Tests fetch two files and one mount.',
     ['verktyg/wsgi.py'],
     [('static files', 'wsgi.py SharedDataMiddleware'),
      ('mounts', 'wsgi.py DispatcherMiddleware')],
     ['SharedDataMiddleware', 'DispatcherMiddleware'],
     'Scratch directory per worker; all paths of up to three segments.')

prop('C21', 'Requests report URL, host and headers truthfully; trust is kept',
     'The URL, base URL, root URL and host URL of a request name exactly '
     'the scheme, host, mount point, path and query of its environment, and '
     'the query arguments, path, method and every header attribute have the '
     'value the client sent (or their documented absent value). With a list '
     'of trusted hosts, the host and every URL are available if and only if '
     'the host is on the list or below a listed domain, and otherwise a '
     'security error is raised.',
     ['inputs', 'configurations'],
     'every host, trusted list, script name, path, query and header '
     'combination',
     'Tests build a few requests.',
     ['verktyg/requests.py', 'verktyg/wsgi.py'],
     [('urls', 'wsgi.py get_current_url, get_host, get_query_string'),
      ('trust', 'wsgi.py host_is_trusted'),
      ('attributes', 'requests.py')],
     ['Request', 'get_current_url', 'get_host', 'host_is_trusted'],
     'All paths of up to three characters out of 25, all hosts of up to '
     'three labels against all short lists.')

prop('C22', 'Converting between URIs and IRIs never changes the resource',
     'Converting a URI to an IRI, an IRI to a URI, or repairing a URL '
     'typed by a person keeps scheme, user, host, port, every path segment, '
     'every query argument and the fragment the same after decoding: an '
     'escaped delimiter never becomes a real one or the other way round. '
     'The result of a conversion to a URI is plain ASCII without unsafe '
     'characters, converting twice is the same as once, and host names '
     'convert to IDNA and back.',
     ['inputs'],
     'every URL over all reserved, escaped and non-ASCII characters in '
     'every component',
     'Tests convert about twenty URLs.',
     ['verktyg/urls.py'],
     [('conversions', 'urls.py uri_to_iri, iri_to_uri, url_fix, '
       'encode_idna, decode_idna')],
     ['uri_to_iri', 'iri_to_uri', 'url_fix'],
     'Every ASCII escape in every component, all texts of up to three '
     'tokens.')

prop('C23', 'Dates survive being written into headers and parsed again',
     'Every moment, given as timestamp, date, time tuple or aware date, is '
     'written as the same GMT second in HTTP and cookie format whatever the '
     'local time zone, and parsing any of the three HTTP date formats, or a '
     'date with an offset, gives that moment back. Text that is no date '
     'parses to nothing, without an error.',
     ['inputs', 'configurations'],
     'every day and second, every offset and time zone, every text',
     'Tests format and parse a handful of dates.',
     ['verktyg/http/basic.py', 'verktyg/http/cookies.py',
      'verktyg/responses.py', 'verktyg/requests.py'],
     [('dates', 'http/basic.py parse_date, http_date, _dump_date; '
       'http/cookies.py cookie_date')],
     ['http_date', 'cookie_date', 'parse_date', 'Response.date',
      'Response.expires', 'Response.last_modified'],
     'Every day of two centuries (thorough: nine millennia), every second '
     'of five days.')

prop('C24', 'Untrusted names and targets are made safe before use',
     'A secured file name contains only letters, digits, dots, dashes and '
     'underscores, joins to a path directly inside any folder, is left '
     'alone if it was safe, and keeps the readable characters of the '
     'original in order. A redirect has the given status, the escaped '
     'target as an ASCII location without line breaks and a page whose only '
     'link is that target; the slash redirect leads to the same URL plus a '
     'slash with its query. Aborting with a code raises the error of '
     'exactly that code.',
     ['inputs'],
     'every name over all of Unicode, every redirect target and path, '
     'every status code',
     'Tests secure five names and follow two redirects.',
     ['verktyg/utils.py', 'verktyg/exceptions.py'],
     [('file names', 'utils.py secure_filename'),
      ('redirects', 'utils.py redirect, append_slash_redirect'),
      ('errors', 'exceptions.py Aborter, default_exceptions')],
     ['secure_filename', 'redirect', 'append_slash_redirect', 'abort'],
     'Every code point and all names of up to four characters out of 16.')

prop('C25', 'An application is exactly what its builder was told',
     'After any sequence of telling builders about routes, converters, '
     'bindings, exception handlers, middleware, mixins and configuration, '
     'an application answers every request, builds every URL under its root '
     'and shows its configuration exactly as its builder had been told when '
     'it was built, whatever is added later or to another builder. '
     'Middleware wraps in the order it was added, each with its own '
     'arguments; requests know their application and binding. The '
     'configuration of an application cannot be changed, and the decorators '
     'return the function they were given.',
     ['histories', 'inputs'],
     'every history of operations on several builders and every request to '
     'the applications built on the way',
     'Tests build one application each, from at most a handful of calls.',
     ['verktyg/application.py', 'verktyg/views.py'],
     [('building', 'application.py ApplicationBuilder'),
      ('serving', 'application.py BaseApplication')],
     ['ApplicationBuilder', 'BaseApplication.__call__',
      'BaseApplication.url_for'],
     'All histories of up to three (thorough: four) operations out of 19 '
     'on two builders.')

TECHNIQUE = {
    'C04': 'explicit-state model checking of operation histories',
    'C05': 'stateless model checking of thread schedules, bounded preemptions',
    'C09': 'model checking with enumerated faults and disconnects',
}
HISTORY = 'explicit-state model checking of operation histories vs a model'
INPUT = 'bounded exhaustive model checking of inputs against a model'

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        assert p['statement'].count('. ') <= 2, p['id']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['cant'],
            'anchors': {
                'files': p['files'],
                'mechanism': [{'name': n, 'where': w}
                              for n, w in p['mechanism']],
                'observe_at': p['observe'],
                'hook_needed': None,
            },
        }) + '\n')

checks = [{
    'property': p['id'],
    'quick_cmd': './check %s quick' % p['id'],
    'thorough_cmd': './check %s thorough' % p['id'],
    'evidence_file': 'evidence/%s.json' % p['id'],
    'technique': TECHNIQUE.get(p['id'], HISTORY if 'histories' in p['over']
                               else INPUT),
    'level': 'model_checking',
    'level_note': p['note'] + ' Exhaustive within these bounds, executed on '
    'the real code and compared step by step with an independent model; '
    'nothing is claimed beyond the bounds. Trusts the model, CPython and the '
    'standard library.',
} for p in P]
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({
        'version': 1,
        'setup_cmd': 'true',
        'checks': checks,
        'not_applicable': [],
        'notes': 'Every check imports the package straight from /repo, so it '
        'sees the working tree; no hooks in /repo are needed.',
    }, f, indent=1)
    f.write('\n')
