"""Technique and level note per claimed property; reasons for the rest"""

TECH = {
    'C29': ('scope and class-member resolution over the syntax tree, call '
            'arity and format checking, path-sensitive definite assignment',
            'Every name, attribute, call and format string of the package '
            'is an obligation resolved against the current source; '
            'attributes of objects of unknown class are only checked '
            'against the set of names anything defines. Branch facts used '
            'by definite assignment are syntactic.'),
    'C02': ('typestate of the transaction object over all paths, implicit '
            'exceptions of every call included',
            'Statements of overridden operations are summarised by the '
            'transaction parameter they take; the driver itself is trusted '
            'to make commit and rollback atomic.'),
    'C03': ('lock-held, check-then-act and notify dataflow over a guarded '
            'field table; slot typestate on acquire and release',
            'Fairness and the drivers behaviour are not decided.'),
    'C04': ('lock-held and check-then-act dataflow over the tables of the '
            'in-memory store; both-directions rule for links',
            'Locks reached through objects of unknown class are matched by '
            'attribute name.'),
    'C16': ('lock-held, check-then-act, wake-up and retest dataflow over '
            'the connection tables; connection typestate',
            'Fairness and socket behaviour are not decided.'),
    'C18': ('lock-held, wake-up, retest and timeout dataflow over the pipe '
            'state',
            'Order of several readers or writers is not decided.'),
    'C06': ('path counting of response starts over every responder, with '
            'value numbering of the declared length and the returned body',
            'Pages an application registers itself are assumed to keep the '
            'same contract; media streams are assumed to have the size '
            'their store reports.'),
    'C07': ('guarded-action analysis: session lookups and stores are only '
            'reached under the fact that the signature of the same cookie '
            'verified; exception flow of the cookie path',
            'The strength of the message authentication code is trusted.'),
    'C08': ('guarded-action analysis of the session wrapper: page calls '
            'are dominated by token equality and establishment facts',
            'Decides the order of checks and which values they compare, '
            'not the strength of the identifiers.'),
    'C09': ('taint of request text to redirect targets and page '
            'templates, with check and escape functions as sanitisers',
            'Templates rendered by third party engines escape by their '
            'own settings.'),
    'C10': ('taint of path text to file system calls; every join is '
            'guarded by the label fact of its component',
            'Symbolic links inside the document root are outside the '
            'property.'),
    'C11': ('guarded-action analysis of launch, nonce and visit creation',
            'The OAuth library is trusted to verify what it is asked to '
            'verify.'),
    'C12': ('guarded-action and provenance analysis of visit and session '
            'records',
            'Queries are matched by their filter expression; the store '
            'that runs them is trusted (C25, C01).'),
    'C31': ('taint of keys and secrets to storage and logs, lockset of the '
            'key tables, provenance of the key number used',
            'Cipher strength is trusted.'),
    'C34': ('alias resolution over the class table as the metaclass builds '
            'it, compared with a recorded inventory; path rules on the '
            'alias machinery',
            'Names only reachable through the run time fallback of '
            'PEP8Compatibility are decided through its name conversion '
            'rules, not name by name.'),
    'C23': ('abstract evaluation of each get_children over the state of '
            'each member, table checks of the attribute maps, path rules '
            'on the tree walkers',
            'Members are those set up by constructors or stored by '
            'add_child; attribute codecs are paired through a table, their '
            'arithmetic is trusted.'),
    'C28': ('dependency sets of hash and equality methods over the class '
            'table, container kinds of the key members, store analysis '
            'with builder and freshness inference',
            'Values are the classes listed in the rule; comparison with '
            'strings and other classes is not covered; setters that warn '
            'of their deprecation may still change an instance.'),
    'C25': ('partial evaluation of the parser, the evaluator and the SQL '
            'generator on symbolic operands, compared operator by operator '
            'and type by type; call and arity tables',
            'Operators are compared by the structure of what each side '
            'builds from its operands; the arithmetic of Python and of the '
            'databases is trusted. Operand order of indexof and the '
            'indexing base of the databases are not compared.'),
    'C15': ('guarded-action analysis of the retry, pipelining and redirect '
            'decisions of the client',
            'Idempotency is decided by the method name; servers that treat '
            'an idempotent method otherwise are outside the property.'),
    'C13': ('guarded-action analysis of every place that sets an '
            'Authorization header, with a symbolic evaluation of the '
            'origin, challenge and path tests',
            'A credential is anything built by the Credentials classes; '
            'headers set by hand by the caller are outside the property.'),
    'C14': ('partial evaluation of the cookie store, of domain and path '
            'matching and of the Set-Cookie parser on symbolic cookies, '
            'nodes and URLs, with every path judged against the scope '
            'rules of RFC 6265',
            'Host names have up to three labels, stores one cookie per '
            'node; the public suffix rules are evaluated on five shapes. '
            'The text of the suffix list and punycode are not covered.'),
    'C01': ('flow-insensitive, deny-by-default provenance analysis of every '
            'SQL text: parameters, attributes, containers and return values '
            'are followed through the SQL modules to constants, quoted '
            'names and placeholders; the quoting functions are evaluated '
            'symbolically',
            'Names taken from the metadata model are trusted once quoted. '
            'CREATE TABLE may contain default values of the model, with '
            'quotes doubled. Drivers are trusted to bind parameters.'),
    'C20': ('partial evaluation of the package routines on symbolic paths '
            'and URLs: every file system effect on every path is judged '
            'against the containment, manifest and ignore tests decided '
            'before it; whole-module enumeration of effect sites',
            'Archive entries have up to three segments and there are up to '
            'two entries; path normalisation in vfs is trusted and symbolic '
            'links are outside the property.'),
    'C24': ('abstract interpretation of the tree operations over a finite '
            'heap: every pair of operations from four starting trees, with '
            'the table compared with the tree after each; the same for '
            'every element class method that drops children; enumeration '
            'of the places that set an identifier',
            'Trees of six elements stand for all trees and histories have '
            'two operations; callers that link children by hand are taken '
            'to follow the documentation of attach_to_parent.'),
    'C05': ('interprocedural abstract interpretation over request methods '
            'and open modes: every call that a GET or HEAD request can '
            'reach is followed, context by context, and compared with the '
            'set of write operations derived from the store classes',
            'Functions that an application binds to its service are '
            'outside the property. Receivers of which nothing is known are '
            'matched by method name, and names of built-in container and '
            'file methods are then ignored.'),
    'C27': ('partial evaluation of the next link, the page readers and the '
            'request builders over tables of options, page sizes and '
            'results; following the links is compared with the requested '
            'entities, and the SQL position test with the lexicographic '
            'order',
            'Results of up to five entities stand for all results; the '
            'database is trusted to filter and sort as the SQL says; NULL '
            'order values and paged $links are not covered.'),
    'C17': ('partial evaluation of the framing decisions of both sides over '
            'the table of headers, methods, statuses and body kinds, and of '
            'the receiving buffers over a family of segmented byte streams, '
            'with the bytes handed out compared with those taken in',
            'Streams of a few bytes with a reduced buffer size stand for '
            'all streams; header parsing below the framing headers and '
            'trailers are not covered.'),
}

NOTAPP = {
    'N01': 'value-level arithmetic over all dates and representations: no '
           'static abstraction in reach separates a right formula from a '
           'wrong one',
    'N02': 'functional equality of two string algorithms over all inputs; '
           'needs execution or proof, not a source-level rule',
    'N03': 'set equality over all code points and language equality of '
           'expressions are run-time quantities',
    'N04': 'the computed outcome values depend on run-time data and the '
           'QTI specification prose; no source-level rule decides them',
    'N05': 'round-trip equality of values is a run-time quantity; the '
           'structural part is decided by C01, C25 and C26',
    'N06': 'round-trip equality of values is a run-time quantity',
}
