#!/usr/bin/env python3
"""Writes ../properties.jsonl from the table below (one place to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state])))

p('C01', 'SQL text never contains request or entity data',
  "Every SQL statement the OData SQL store sends to its database is assembled only from constant text, quoted identifiers derived from the metadata model, parameter placeholders and other statement fragments built the same way. Entity property values, key values, filter literals, skip tokens and blob contents reach the database only as bound parameters.",
  ['inputs', 'programs'], "for every entity value, key, $filter/$orderby expression, page token and metadata model",
  "Tests send a handful of benign literals; no test can enumerate the strings that would escape a literal.",
  ['pyslet/odata2/sqlds.py', 'pyslet/mysqldbds.py'],
  [('parameter placeholder registration', 'SQLParams.add_param'), ('identifier quoting', 'SQLEntityContainer.quote_identifier / mangle_name')])
p('C02', 'A change to the SQL store is committed whole or rolled back whole',
  "Each create, update, delete, link and media-stream operation on the SQL store runs all of its SQL statements in one transaction which is committed if and only if every statement succeeded. On any failure it is rolled back before the error reaches the caller, and in every case the transaction is closed and its connection is released.",
  ['histories', 'fault_sequences', 'crash_points'], "for every sequence of statements and every statement at which the database driver fails",
  "Tests run against a healthy SQLite database and never inject a failure between two statements of one operation.",
  ['pyslet/odata2/sqlds.py', 'pyslet/mysqldbds.py'],
  [('transaction begin/commit/rollback/close', 'SQLTransaction'), ('nested statements share the transaction', 'SQLEntityCollection.*_sql(transaction)')])
p('C03', 'SQL connection pool accounting is exact and race free',
  "The pool's idle, locked and dead connections are only inspected or changed while the pool lock is held, every connection taken from the pool is returned exactly once, and a thread that returns or discards one wakes those waiting for a slot. The number of connections never exceeds the configured maximum and a failure to open one never loses a slot.",
  ['schedules', 'fault_sequences'], "for every interleaving of threads acquiring, releasing, timing out and dying",
  "Tests exercise a few threads with one schedule each; the lock discipline must hold on every path.",
  ['pyslet/odata2/sqlds.py'],
  [('pool lock', 'SQLEntityContainer.cpool_lock'), ('acquire/release', 'SQLEntityContainer.acquire_connection / release_connection')])
p('C04', 'In-memory entity and link storage is only touched under its lock',
  "Every read or change of the in-memory OData store's entity table, key table and link tables happens while that container's lock is held, including iteration. A link between two entities is always recorded or removed in both directions within one such critical section.",
  ['schedules', 'histories'], "for every interleaving of collections used from several threads",
  "The tests are effectively single threaded against this store.",
  ['pyslet/odata2/memds.py'],
  [('container lock', 'InMemoryEntityContainer / InMemoryEntityStore.container.lock')])
p('C05', 'OData GET and HEAD requests never modify data',
  "Handling a GET or HEAD request never inserts, replaces, updates, deletes, links or unlinks anything, whatever the resource path and options. A read-only server passes on GET and HEAD requests only and refuses every other method. What functions bound by an application do is up to the application.",
  ['inputs'], "for every resource path, query option and header of a GET or HEAD request",
  "Tests issue a finite list of URLs; the guarantee is over every dispatch path.",
  ['pyslet/odata2/server.py', 'pyslet/rfc5023.py'],
  [('method dispatch', 'Server.handle_request and the per-resource handlers'), ('read only filter', 'ReadOnlyServer.handle_request')])
p('C06', 'Every web request gets exactly one response start and a matching body',
  "On every path a WSGI handler in this package calls the response starter exactly once before it returns its body, or raises to a caller that does. When it declares a content length, that length is the length of the bytes it returns, and the body consists of bytes.",
  ['inputs', 'fault_sequences'], "for every request, handler path and handler failure",
  "Error paths (malformed cookies, unknown formats, failing templates) are mostly not driven by tests.",
  ['pyslet/wsgi.py', 'pyslet/odata2/server.py', 'pyslet/rfc5023.py', 'pyslet/imsbltiv1p0.py'],
  [('start_response wrapper', 'WSGIContext.start_response'), ('exception mapping', 'WSGIApp.internal_error, Server.handle_error, odata_error')])
p('C07', 'Session cookies are trusted only after their signature verifies',
  "Nothing read from a session cookie (session identifier, establishment flag, user binding) is used to find or change a session until the cookie's signature has been verified with a known application key that is in date. A cookie that is malformed or fails verification is treated as no session and never leads to a server error.",
  ['inputs'], "for every cookie value a browser may send",
  "Tests send one genuine and one or two corrupted cookies.",
  ['pyslet/wsgi.py'],
  [('signature check', 'AppCipher.check_signature / SessionApp.get_session'), ('cookie parsing', 'CookieSession')])
p('C08', 'State changing form posts need an established session and its CSRF token',
  "A handler protected by the session machinery runs for a POST only when the request carries a form token equal to the session identifier in the cookie whose signature verified; otherwise the request is refused or sent through the cookie test first. Establishing a session always gives it a fresh identifier, and a session from the query string is merged only when it was signed by the application and not yet established.",
  ['inputs', 'histories'], "for every order of requests, cookies and form fields",
  "The negative combinations (right token wrong session, unestablished session, missing field) are not enumerated by tests.",
  ['pyslet/wsgi.py', 'pyslet/imsbltiv1p0.py'],
  [('session decorator', 'session_decorator'), ('establishment', 'SessionApp.establish_session / CookieSession.establish')])
p('C09', 'No redirect is sent to an unverified address taken from the request',
  "A redirect whose target comes from the query string is sent only after the target has passed both the application's signature check and the check that it belongs to this application. Any request supplied text placed in a generated HTML page is escaped first.",
  ['inputs'], "for every query string and path",
  "Tests cover the genuine redirect only.",
  ['pyslet/wsgi.py'],
  [('return path check', 'SessionApp.check_redirect'), ('escaping', 'xml.escape_char_data7')])
p('C10', 'Static file serving never leaves the configured document root',
  "Every path component of a request is checked to be a plain host-label like name before it is joined to the static files directory, and only an existing plain file under that directory is opened. Anything else is reported as page not found.",
  ['inputs'], "for every request path including encoded and dotted segments",
  "Tests request existing files; traversal spellings are unbounded.",
  ['pyslet/wsgi.py'], [('component check', 'WSGIApp.static_page')])
p('C11', 'An LTI launch is accepted only after signature, freshness and type checks',
  "A tool provider returns a consumer, creates a visit or grants permissions for a launch only after the OAuth signature verified for that consumer's key and secret, the nonce was not seen before inside the accepted time window, and the message type and version are supported. Every accepted nonce is recorded before the launch is accepted.",
  ['inputs', 'histories'], "for every launch request and every replay of one",
  "Tests launch a few well formed requests; replays and partial failures are combinatorial.",
  ['pyslet/imsbltiv1p0.py'], [('launch validation', 'ToolProvider.launch'), ('nonce check', 'ToolProvider.validate_timestamp_and_nonce'), ('secret lookup', 'ToolProvider.get_client_secret')])
p('C12', 'Tool visits and permissions are only reachable from their own session',
  "A resource visit is loaded for a request only if it is linked to the session of that request and to the resource in its path, and the permissions, user, group and consumer of the request come from that visit's record. Visits are linked to a session only while handling a verified launch for that session, or when that session is established or merged, and a new visit replaces the session's earlier visits to that resource and those of other users of the same consumer.",
  ['inputs', 'histories'], "for every request path and session",
  "Tests follow the happy path of one user.",
  ['pyslet/imsbltiv1p0.py'], [('visit lookup', 'ToolProviderApp.load_visit / find_visit'), ('permissions', 'ToolProviderSession / split_role')])
p('C13', 'HTTP credentials are sent only to the protection space they belong to',
  "The client adds an Authorization header only from credentials whose protection space is the scheme, host and port of the request and, for pre-emptive use, whose path covers the request path, or in answer to a challenge from that same origin. When a request is sent again, or to a new location, the header is dropped if the origin changes and the cookies are chosen afresh for the new URL.",
  ['inputs', 'histories'], "for every sequence of redirects and challenges a server may send",
  "Tests use one fake server and never redirect across origins with credentials.",
  ['pyslet/http/client.py', 'pyslet/http/auth.py'], [('credential lookup', 'Client.find_credentials / find_credentials_by_url'), ('redirect handling', 'ClientRequest.resend')])
p('C14', 'Cookies are stored and returned only within their declared scope',
  "The cookie store accepts a cookie only from an HTTP(S) origin allowed to set it: its domain must match the origin and must not be a public suffix. It returns a cookie only when it is unexpired, matches the request host exactly (or by domain when allowed) and the request path, and a cookie marked secure only for https. A cookie marked http-only is accepted from and returned to HTTP(S) URLs only.",
  ['inputs', 'histories'], "for every URL and every Set-Cookie history",
  "RFC examples are tested; the conjunction of guards must hold for every combination.",
  ['pyslet/http/cookie.py'], [('acceptance', 'CookieStore.set_cookie'), ('selection', 'CookieStore.search')])
p('C15', 'Only safe and idempotent requests are repeated automatically',
  "The HTTP client re-sends a request after a broken connection only if none of it can have been acted on or its method is idempotent, and follows a redirect automatically only for the methods allowed for that status. A request that is not idempotent is sent only once every earlier request on the connection has been answered and nothing is left in the buffer.",
  ['schedules', 'fault_sequences'], "for every point at which a connection may break and every redirect status",
  "Tests break a connection at one or two fixed points.",
  ['pyslet/http/client.py'], [('retry decision', 'Connection.request_disconnect'), ('redirect', 'ClientRequest.finished')])
p('C16', 'HTTP client connection pools are consistent under concurrency',
  "The client's tables of active and idle connections are read and changed only under the manager lock and always together, so a connection is in exactly one state. Every change that could free a connection wakes waiting threads. Once the client is closed no new connection is created and a killed connection is never reconnected.",
  ['schedules'], "for every interleaving of threads sharing one client",
  "A race needs a particular schedule; tests run a few.",
  ['pyslet/http/client.py'], [('manager lock', 'Client.managerLock')])
p('C17', 'HTTP messages are framed so that sender and receiver agree on the end',
  "A message declares at most one of chunked coding and a content length. When receiving, an explicit transfer coding overrides any length, a length that is not a plain number is refused, and a request whose coding does not end in chunked is refused. Responses to HEAD and responses with status 1xx, 204 or 304 carry no body. A chunked body always ends with the zero chunk, a counted body carries exactly the declared number of bytes, and a request is never sent with a body of undeclared extent. A body that ends before its declared end is reported as an error, the bytes received on a connection are handed to exactly one message in the order in which they arrived, and a WSGI application can never read beyond the body of its own request.",
  ['inputs'], "for every combination of headers, protocol version, method, status and body kind, and every division of the byte stream into reads",
  "Tests sample the combinations; smuggling needs the unusual ones.",
  ['pyslet/http/messages.py', 'pyslet/http/server.py', 'pyslet/http/client.py'], [('sender framing', 'Message/Request/Response.send_transferlength'), ('receiver framing', 'recv_transferlength, Message.recv, ChunkedReader, RecvWrapper, WSGIInputWrapper')])
p('C18', 'Pipe readers and writers are always woken and never see torn state',
  "All buffer, end-of-file and blocking state of the in-process pipe is read and written under its lock, and every change that can satisfy a waiting reader or writer notifies it before the lock is released. A blocked call re-tests its condition after each wake-up and honours its timeout.",
  ['schedules'], "for every interleaving of one or more readers and writers",
  "Lost wake-ups only show in schedules the tests do not force.",
  ['pyslet/streams.py'], [('pipe lock', 'Pipe.lock')])
p('C19', 'Stored blobs are complete, checked and deleted safely',
  "A block is recorded as part of a stream only under its content hash and with its true size and order, streams that are rejected for size or checksum leave nothing behind, and reading or deleting one stream never touches the blocks of another. Shared blocks are reference checked under a lock before removal.",
  ['inputs', 'histories', 'fault_sequences'], "for every stream content, size limit and failure point",
  "Failure points between blocks are not exercised.",
  ['pyslet/blockstore.py'], [('stream store', 'StreamStore'), ('block store', 'BlockStore'), ('locks', 'LockStore')])
p('C20', 'Content packages are only read, written and deleted inside their own directory',
  "Expanding an archive creates a file or directory only after its normalised path has been shown to be inside the package directory, and adding, copying or deleting a package file first shows that the target is inside the package directory and is neither the manifest nor an ignored file. Only a directory that the package itself created as temporary is ever removed as a whole.",
  ['inputs'], "for every archive entry name and every href",
  "Tests use well behaved packages and a few bad ones.",
  ['pyslet/imscpv1p2.py', 'pyslet/vfs.py'], [('archive expansion', 'ContentPackage.expand_zip'), ('deletion', 'ContentPackage.delete_file, close'), ('containment test', 'path_in_path / package_path')])
p('C21', 'Serialised XML always escapes character data and attribute values',
  "Whenever an element tree is written out, every text child and every attribute value goes through an escaping function (or a correctly split CDATA section) before it is emitted, for every element class and output format. Only names and fixed markup are written unescaped.",
  ['inputs', 'programs'], "for every document content",
  "Tests round trip selected documents; any emitter path may be the one that forgets.",
  ['pyslet/xml/structures.py', 'pyslet/xml/namespace.py', 'pyslet/html401.py', 'pyslet/qtiv2/core.py'], [('escaping', 'escape_char_data, escape_char_data7, escape_cdsect')])
p('C22', 'Ill-formed XML is always refused with an XML error',
  "Unless the caller switched well-formedness checking off, the parser raises a fatal XML error for mismatched tags, duplicate attributes, '<' in attribute values, unterminated constructs, undeclared or recursive entities and external entities in attributes. It never accepts such a document and never fails with a programming error instead.",
  ['inputs'], "for every input document",
  "The conformance suite cannot be run offline and samples only some errors.",
  ['pyslet/xml/parser.py'], [('fatal errors', 'XMLParser.well_formedness_error'), ('entity references', 'XMLParser.parse_entity_ref / parse_pe_reference')])
p('C23', 'Every typed child of an XML element class is written, found and copied',
  "For every element class in the package, iterating the element's children visits every member in which add_child keeps child elements, and the element's own content where its content model is open, exactly once each. Serialising, searching, comparing, copying, attaching and detaching all go through that iteration for each child, so none of them loses one, and removing a child removes that very child. Every mapped attribute has a matching decoder and encoder and a member of its own.",
  ['programs'], "for every element class and every combination of optional children",
  "There are several hundred classes; tests build a few of them.",
  ['pyslet/xml/structures.py', 'pyslet/qtiv1', 'pyslet/qtiv2', 'pyslet/imscpv1p2.py', 'pyslet/imsmdv1p2p1.py', 'pyslet/rfc4287.py', 'pyslet/html401.py', 'pyslet/odata2/csdl.py'], [('child enumeration', 'get_children overrides'), ('attribute maps', 'XMLATTR_ definitions')])
p('C24', 'The document identifier table matches the element tree',
  "Whenever an element enters or leaves a document its identifier, and those of all its descendants, are registered or removed, and an identifier clash is refused without disturbing the element already registered. An element removed from its parent no longer refers to it.",
  ['histories'], "for every sequence of tree edits",
  "Tests make one or two edits.",
  ['pyslet/xml/structures.py'], [('register/unregister', 'Document.register_element / unregister_element'), ('attach/detach', 'Element.attach_to_doc / detach_from_doc')])
p('C25', 'Every OData operator and function is handled by every expression back end',
  "Each operator and method that the expression parser can produce has an entry of its own, with a matching argument count, in the in-memory evaluator and in the SQL generator, or is refused explicitly as not implemented. Operator precedence and grouping are the same in the parser, the URL formatter and the SQL generator.",
  ['programs', 'inputs'], "for every expression that can be parsed",
  "Tests contain sample expressions, not all operator/back end pairs.",
  ['pyslet/odata2/core.py', 'pyslet/odata2/sqlds.py'], [('operator tables', 'Operator, Method, EvalMethod, SQL_*')])
p('C26', 'Every EDM primitive type is handled wherever types are converted',
  "Each primitive type of the data model can be constructed, parsed and formatted as a literal, parsed and formatted as JSON, compared and cast, and stored in SQL, through entries that exist for every type and agree with each other. A type with no support in one of these places is refused explicitly, never silently treated as another.",
  ['programs', 'inputs'], "for every primitive type at every conversion site",
  "Tests use some types at some sites.",
  ['pyslet/odata2/csdl.py', 'pyslet/odata2/core.py', 'pyslet/odata2/sqlds.py'], [('type tables', 'SimpleType, EDMValue subclasses, entity/value converters')])
p('C27', 'Paged OData results keep every query option on the next page link',
  "When a result is cut into pages the link to the next page carries every option of the original request that affects which entities follow and how they are shown, plus the position reached and what is left of $top, so that following the links returns the requested entities once each and in order. The page order is total because the entity key is always the last sort field. The client sends every option set on a collection with each page request.",
  ['inputs', 'histories'], "for every combination of query options and page size",
  "Tests page one collection with one or two options.",
  ['pyslet/odata2/server.py', 'pyslet/odata2/core.py', 'pyslet/odata2/csdl.py', 'pyslet/odata2/sqlds.py', 'pyslet/odata2/client.py'], [('next link', 'return_entity_collection / next_skiptoken')])
p('C28', 'Value objects are immutable and hash consistently with equality',
  "Dates, times, URIs, media types, language tags, entity tags, file paths and the other value types never change after construction, except through setters that warn that they are deprecated. Any class that defines a hash computes it from the values it compares, or fewer, with nothing in them that cannot be hashed, and every value type has a hash. Equal values of one class therefore always behave as one key in sets and dictionaries.",
  ['histories', 'programs'], "for every value and every use as a key",
  "Tests compare sample values.",
  ['pyslet/iso8601.py', 'pyslet/rfc2396.py', 'pyslet/http/params.py', 'pyslet/http/messages.py', 'pyslet/rfc5023.py', 'pyslet/vfs.py', 'pyslet/xml/xsdatatypes.py', 'pyslet/odata2/csdl.py'], [('sort keys', 'SortableMixin / sortkey')])
p('C29', 'Every name, attribute and call in the library resolves',
  "No operation of the library fails because its code refers to a name, module member, method or own attribute that does not exist, reads a variable that was not assigned on that path, calls a function with arguments it does not take, or formats a message with the wrong arguments. This includes the error handling paths.",
  ['programs', 'fault_sequences'], "for every path through every function",
  "Error paths and rarely used features are not covered by tests.",
  ['pyslet'], [('whole package', 'all modules')])
p('C30', 'Malformed input is reported with the documented error, never by a crash',
  "Optional results of the parsing and lookup routines (a missing token, header, entity, attribute or match) are tested before they are dereferenced, so malformed or missing input gives the routine's own error. An error object that is built is raised, not discarded.",
  ['inputs'], "for every malformed input to the URL, header, XML, date and metadata parsers",
  "The space of malformed inputs is unbounded.",
  ['pyslet'], [('optional results', 'parse_* functions, get_* lookups')])
p('C31', 'Stored secrets are only ever written encrypted under a live key',
  "Application keys and consumer secrets are written to storage or logs only in encrypted or hashed form, new data is always encrypted with the current key, and the table of keys is changed, and the current key chosen, only under the cipher's lock. Decryption looks for the key in the key table and refuses a key number that is not in it.",
  ['histories', 'schedules'], "for every key change and every stored secret",
  "Tests rotate keys in one order.",
  ['pyslet/wsgi.py', 'pyslet/imsbltiv1p0.py'], [('cipher', 'AppCipher / AESAppCipher')])
p('C32', 'Opened files, streams, entities and collections are closed on every path',
  "Each place that opens a file, archive, XML entity, entity collection, database cursor or connection either closes it on every normal and exceptional path or hands it to its caller or owner, which does. No failure leaks one.",
  ['fault_sequences'], "for every failure between open and close",
  "Leaks on failure paths are invisible to tests under garbage collection.",
  ['pyslet'], [('with / try-finally', 'all openers')])
p('C33', 'Save and restore of shared parser and stream modes is balanced',
  "Wherever a routine temporarily changes a mode of an object it does not own (reference mode, blocking mode, position, locale or hook), the previous value is put back on every path that returns normally, and on exceptional paths where the object remains in use.",
  ['inputs', 'fault_sequences'], "for every path through the routine",
  "Tests seldom continue using an object after an error path.",
  ['pyslet/xml/parser.py', 'pyslet/streams.py', 'pyslet/unicode5.py', 'pyslet/http/grammar.py', 'pyslet/iso8601.py', 'pyslet/vfs.py'], [('saved state', 'save_* locals')])
p('C34', 'Old style names keep working and reach the same code',
  "Every deprecated class, function, method and keyword argument name stays available, resolves to exactly one current implementation, the same one the current name reaches in every class that inherits or overrides it, and never shadows or is shadowed by another definition.",
  ['programs'], "for every deprecated alias in the package",
  "Aliases are generated dynamically; only a few are called by tests.",
  ['pyslet/pep8.py'], [('alias decorators', 'old_function, old_method, MigratedClass')])
# value level guarantees (listed as not applicable to this technique)
p('N01', 'ISO 8601 values round trip and calendar arithmetic is exact',
  "Formatting any date, time or time point and parsing the result in the same representation gives an equal value, and conversion between calendar, ordinal and week forms, zone shifts and duration arithmetic are mutually consistent for every representable value.",
  ['inputs'], "for every date, time, zone and precision", "Tests sample values; the domain is millions of points times representations.",
  ['pyslet/iso8601.py'], [('conversions', 'Date, Time, TimePoint, Duration')])
p('N02', 'URI resolution and relativisation are inverse and follow RFC 2396',
  "Resolving a reference against any hierarchical base gives the RFC 2396 result, and relativising then resolving a URI returns the original.",
  ['inputs'], "for every pair of URIs", "Only the RFC examples are tested.", ['pyslet/rfc2396.py'], [('resolution', 'URI.resolve / relative')])
p('N03', 'Character classes and XML schema regular expressions match exactly',
  "Unions, differences and negations of character classes contain exactly the characters set theory says and the regular expression engine accepts exactly the language of the expression.",
  ['inputs'], "for every class operation and expression", "The domains are unbounded.", ['pyslet/unicode5.py', 'pyslet/xml/xsdatatypes.py'], [('ranges', 'CharClass')])
p('N04', 'QTI response processing computes the specified outcome values',
  "For every assessment item and candidate response the outcome values, cardinalities and base types computed by response processing and test navigation are those of the QTI specification.",
  ['inputs', 'programs'], "for every item, response and session history", "Tests run the example items.", ['pyslet/qtiv2'], [('expressions', 'qtiv2/expressions.py, processing.py, variables.py')])
p('N05', 'OData literals, keys and filters round trip through URLs and SQL',
  "Formatting any EDM value or expression into a URL or SQL parameter and parsing it back gives an equal value or an equivalent expression.",
  ['inputs'], "for every value and expression", "Tests sample values.", ['pyslet/odata2/core.py', 'pyslet/odata2/csdl.py', 'pyslet/odata2/sqlds.py'], [('literals', 'ODataURI.format_literal, URILiteral parsers')])
p('N06', 'HTTP header values round trip through parse and format',
  "Parsing a well formed header value and formatting the result gives an equivalent header, and content negotiation selects the highest quality acceptable variant.",
  ['inputs'], "for every header value", "Tests sample values.", ['pyslet/http/params.py', 'pyslet/http/messages.py', 'pyslet/http/grammar.py'], [('parsers', 'ParameterParser, HeaderParser')])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
