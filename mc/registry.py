"""One entry per property: what it says, and how run.py decides it.  tools/gen.py writes
properties.jsonl and MANIFEST.json from this."""

CHECKS = {}


def add(prop, **kw):
    kw.setdefault('level', 'model_checking')
    CHECKS[prop] = kw


OD = 'pyslet/pyslet/odata2/'

add('C01', module='c01',
    title='In-memory entity store: every history keeps links, cascades and atomicity',
    statement='Whatever sequence of inserts (plain, with links, deep), updates, link changes and deletes is applied to an '
    'in-memory OData container, its entity sets and navigation properties show exactly the state the accepted operations '
    'describe: links are visible from both ends, multiplicities are never exceeded, a required partner is deleted with its '
    'entity, and nothing of a deleted entity (link, value or media stream) reappears. An operation that is refused changes nothing.',
    over=['histories', 'configurations'],
    quantifier='all operation sequences, from every reachable state, for every combination of association multiplicities and '
    'navigation properties',
    why='Tests run a few fixed histories on a few association shapes; a wrong undo or a missed cascade shows only in particular '
    'states of particular shapes.',
    files=[OD + 'memds.py', OD + 'csdl.py'],
    mechanism=[('two-way link index', OD + 'memds.py InMemoryAssociationIndex'),
               ('constraint checks and cascade', OD + 'memds.py EntityCollection.InsertEntity/__delitem__, NavigationCollection'),
               ('deferred bindings', OD + 'csdl.py EntityCollection.UpdateBindings, Entity.CheckNavigationConstraints')],
    rule='every operation of the alphabet from every reachable state of every association configuration; '
         'a state is the canonical form of everything the container stores',
    assumptions=['2 keys per entity set', 'single-threaded (C02 covers threads)'],
    technique='explicit-state exploration of the real store against a reference model (BFS over reachable states)',
    note='Exhaustive over the operation alphabet from every reachable state for 45 association configurations with at most 2 '
    'keys per set; trusts the reference model in checks/c01.py.')

add('C02', module='c02', java=True,
    title='In-memory entity store: threads see linearizable operations',
    statement='When several threads use one in-memory OData container at the same time, each through its own collections, the '
    'results and the final state are those of some sequential order of their operations, no thread fails because another one '
    'was running, and the threads never block each other for good.',
    over=['schedules'],
    quantifier='all interleavings (at source-line granularity, up to a preemption bound) of concurrent inserts, deletes, link '
    'changes, stream writes, key allocation and iteration',
    why='The tests are single-threaded or rely on the luck of the scheduler.',
    files=[OD + 'memds.py'],
    mechanism=[('container lock', OD + 'memds.py InMemoryEntityContainer.lock')],
    rule='every schedule with at most the stated number of preemptions of every scenario; scheduling points are the source '
         'lines of the in-memory store and its lock operations; states counts the scenarios, transitions the scheduling points passed',
    assumptions=['sequentially consistent memory', 'one source line of the store is atomic', 'preemptions bounded (1 quick, 2 thorough)'],
    technique='stateless exploration of the real code under a controlled scheduler, preemption-bounded, linearizability oracle',
    note='All schedules with at most 1 (quick) or 2 (thorough) preemptions of 27 two- and three-thread scenarios; source-line atomicity.')

add('C03', module='c03',
    title='OData server: request histories do what their responses say',
    statement='Whatever sequence of HTTP requests (POST, PUT, DELETE, GET on entity sets, entities, properties, $value, $links '
    'and navigation paths, in JSON or Atom) an OData server over the in-memory store is sent, it answers 2xx exactly when the '
    'request is allowed in the current state and then has exactly the requested effect, and answers 4xx, never 5xx, '
    'otherwise, leaving the data unchanged. Every later read, in either format and along every path ($expand, $count, $links, '
    'navigation, $value), shows the state those effects describe, and every response is a valid WSGI response whose '
    'Content-Length, Location and body agree with it.',
    over=['histories', 'configurations'],
    quantifier='all request histories up to the bound over the request alphabet, in both formats, for each association shape',
    why='Tests send single requests to one sample database; they cannot settle what each request does in every reachable state.',
    files=[OD + 'server.py', OD + 'core.py', OD + 'memds.py'],
    mechanism=[('request dispatch', OD + 'server.py Server.HandleRequest, GetResource'),
               ('entity reading and writing', OD + 'core.py Entity.SetFromJSONObject, Entry.GetValue, Entry.SetValue'),
               ('links', OD + 'server.py ReadEntityFromLink, ReturnLinks')],
    rule='every request of the alphabet in both formats from every state reachable with the stated number of changes; after each '
         'request the store is compared with the reference, and in every state every path is read back; states are counted per format',
    assumptions=['no MERGE, batch or conditional requests (the server does not implement them)', 'at most 2 keys per set'],
    technique='explicit-state exploration of the real WSGI server against a reference model',
    note='All requests of the alphabet from all states at most 3 (quick) or 8 (thorough) changes away, 8 models plus media-link '
    'entries; responses parsed with the JDK XML parser and the json module; trusts the reference model.')


add('C04', module='c04',
    title='OData paging: the pages partition the selection, in order',
    statement='Whatever filter, ordering, $top, $skip, $select, $expand and server page limit apply, the pages of an entity set or '
    'navigation collection obtained one after the other (by next links of JSON or Atom responses, by skip tokens or by '
    'iterpage(setNextPage=True)) list exactly the entities asked for, each once and in order, with the same representation on '
    'every page; no page exceeds the limit, a next link is given exactly when there are more entities, the identity and link '
    'URIs are right, and the inline count is the number of matching entities irrespective of paging.',
    over=['inputs', 'configurations'],
    quantifier='all combinations of collection, number of entities, filter, ordering, $top, $skip, page limit, $inlinecount, '
    '$select/$expand and format within the bounds',
    why='The tests page once through one collection; the boundary cases (last page full, $top above the limit, skip beyond the '
    'end, ties in the ordering) are combinations no sample covers.',
    files=[OD + 'csdl.py', OD + 'core.py', OD + 'server.py', OD + 'memds.py'],
    mechanism=[('paging', OD + 'csdl.py EntityCollection.SetPage, TopMax, iterpage, NextSkipToken'),
               ('next links', OD + 'core.py EntityCollection.GetNextPageLocation, GenerateEntitySetInJSON, Feed.GetChildren'),
               ('responses', OD + 'server.py ReturnEntityCollection, ReturnLinks')],
    rule='every combination of the listed options, each followed page by page to the end; a state is one combination',
    assumptions=['the data do not change between pages', 'links are not limited by the server (as the server does)'],
    technique='exhaustive enumeration of bounded option combinations on the real code against a list model',
    note='All combinations of up to 4 (quick) or 6 (thorough) entities, 5 filters, 4 orderings, top/skip/limit up to 6, both formats.')

add('C05', module='c05',
    title='OData expressions: filters and orderings mean what they say',
    statement='A $filter or $orderby expression is accepted exactly when the OData grammar allows it, groups by operator '
    'precedence and left to right whatever brackets and white space are used, and printing it and parsing the text gives an '
    'expression with the same value. Evaluating it gives the type and the exact value the OData rules define for the operand '
    'values, including numeric promotion, integer division and remainder truncated towards zero, null operands, casts, methods '
    'and paths through complex properties and single links, or EvaluationError/ValueError when there is none.',
    over=['inputs'],
    quantifier='all token sequences and expression trees up to the bound, all operators, methods and casts on all pairs and '
    'triples of a pool of boundary values of every simple type',
    why='The tests evaluate about 200 expressions; grouping, promotion and null handling depend on the combination.',
    files=[OD + 'core.py', OD + 'csdl.py'],
    mechanism=[('operator precedence parser', OD + 'core.py Parser.ParseCommonExpression'),
               ('evaluation', OD + 'core.py UnaryExpression, BinaryExpression, CallExpression'),
               ('printing', OD + 'core.py CommonExpression.__unicode__')],
    rule='every token sequence over six alphabets up to the stated length, every tree with up to the stated number of operators, '
         'every operator and method over the value pool; states counts the distinct accepted expressions',
    assumptions=['what the specification leaves open (small integer types among themselves, negative substring positions) is not judged',
                 'the reference follows the repository in giving false for true or null'],
    technique='bounded exhaustive enumeration of expressions, compared with a reference parser and evaluator',
    note='All token sequences of length at most 5 (quick) or 6 (thorough) over six alphabets, trees of at most 3 or 4 operators, '
    'all operator/value pairs; trusts the reference evaluator in checks/c05.py.')

add('C06', module='c06',
    title='OData addresses: every entity address leads back to exactly that entity',
    statement='The address an OData server gives to an entity (its location, JSON metadata uri, Atom id and edit link, link lists), '
    'whatever the type and value of its key (any characters in a string key, compound keys, every simple type), is a valid '
    'URI that leads, sent back in any request or in the body of a link request, to that entity and to no other: for reading it, '
    'its properties, values, counts and links, for linking and unlinking it, for filtering by its key and for deleting it.',
    over=['inputs'],
    quantifier='all string keys up to the bound over the special characters, boundary values of every key type, compound keys',
    why='Tests use integer keys and a few plain names; escaping, quoting and splitting go wrong for particular characters only.',
    files=[OD + 'core.py', OD + 'server.py', OD + 'csdl.py', 'pyslet/pyslet/rfc2396.py'],
    mechanism=[('key predicates', OD + 'core.py ODataURI.FormatKeyDict, SplitSegment'),
               ('escaping', 'pyslet/pyslet/rfc2396.py EscapeData, UnescapeData'),
               ('request paths', OD + 'server.py Server.__call__, GetResource, GetResourceFromURI')],
    rule='every key of the stated sets is inserted, addressed in every way, and deleted, in groups that share a store; states '
         'counts the distinct addresses',
    assumptions=['the WSGI server decodes the path as WSGI requires'],
    technique='bounded exhaustive enumeration of keys, round trip through the real server',
    note='All strings of length 1 over 39 characters and of length 2 over 11 (quick) or 39 (thorough), length 3 over 7 (thorough), '
    'plus selected strings; boundary values of 14 other types; compound keys.')

add('C07', module='c07',
    title='OData requests: any request gets a proper answer; a refused one changes nothing',
    statement='Whatever the method, path, query, headers and body of a request, the OData server gives one well-formed HTTP answer '
    'and never a 5xx status: invalid JSON, XML, values of the wrong type or out of range, unknown names, links to something else, '
    'bad headers and truncated bodies are answered with a 4xx status and a readable error document. A request that is refused, or '
    'that only reads, leaves the stored data exactly as it was. After any accepted request every stored value is a legal value of '
    'its declared type (range, length, nullability), mandatory links exist, and every entity set can still be read.',
    over=['inputs'],
    quantifier='all products of methods, resource paths and bodies, all query option values of a list on every kind of resource, all '
    'header values up to the bound, and all mutations of one node of valid JSON and XML bodies',
    why='The tests send valid requests; the many combinations of wrong ones each take a different path through the server.',
    files=[OD + 'server.py', OD + 'core.py', OD + 'csdl.py'],
    mechanism=[('request dispatch', OD + 'server.py Server.__call__, HandleRequest'),
               ('reading bodies', OD + 'server.py ReadXMLOrJSON, ReadEntity, ReadValue, ReadDereferencedValue, ReadEntityFromLink; '
                + OD + 'core.py Entity.SetFromJSONObject, Entry.GetValue'),
               ('errors', OD + 'server.py ODataError')],
    rule='every request of the stated products and mutations is sent to the real server with a fresh store; states counts distinct '
         '(request line, type, status) combinations',
    assumptions=['the application is called as WSGI requires', 'media streams and the in-memory store are used'],
    technique='bounded exhaustive enumeration of requests and of one-node mutations of valid requests against the real server',
    note='All products of 10 methods, 90 paths and 23 bodies, option values on 20 resources, header token sequences up to length 3 '
    '(quick) or 4 (thorough), all one-node mutations and truncations of 50 valid bodies.')

XM = 'pyslet/pyslet/xml20081126/'

add('C08', module='c08', java=True,
    title='XML: exactly the well-formed documents are accepted, with the right content',
    statement='The XML parser accepts a document exactly when it is well-formed XML 1.0: every well-formed document is read, whatever '
    'its encoding, however its bytes are cut into chunks and whether it comes from a byte string, a character string, a file or an '
    'entity, and every other document is refused with an XML error. What is read is what the specification says: line ends are '
    'normalised, character and entity references replaced, attribute values normalised and defaulted according to the DTD, CDATA '
    'sections taken literally, comments and processing instructions skipped.',
    over=['inputs'],
    quantifier='all sequences of tokens of every syntactic context (content, tags, prolog, declarations, entities, attribute types and '
    'defaults, content models, internal subset) up to the bound, all encodings, chunk sizes and ways to supply the document',
    why='Each test document exercises one production in one context; errors hide in combinations (a reference in a default value, a '
    'line end across a chunk, a markup declaration where none is allowed).',
    files=[XM + 'parser.py', XM + 'structures.py'],
    mechanism=[('productions', XM + 'parser.py XMLParser.Parse*'),
               ('entity input', XM + 'structures.py XMLEntity.NextChar, OpenEncodedStream, AutoDetectEncoding'),
               ('markup declarations', XM + 'structures.py XMLDTD, XMLAttributeDefinition')],
    rule='every token sequence up to the bound in every family is parsed with the library and with the JDK parser, and the verdicts and '
         'contents compared; states counts distinct contents',
    assumptions=['the JDK parser (Xerces) is right except where it is known to be lax, which is excluded',
                 'no external entities'],
    technique='bounded exhaustive enumeration of documents, differential against an independent reference parser',
    note='All token sequences up to length 2 (3 over the core tokens; thorough 3 and 4) in 11 syntactic families; 14 encodings x chunk '
    'sizes x sources. Trusts the JDK parser.')

add('C09', module='c09', java=True,
    title='XML: a document that is written and read again is the same document',
    statement='Whatever an XML document (with or without namespaces) contains, writing it (as unicode or ASCII string, pretty-printed '
    'or not, to a stream or a file) gives a well-formed document that any XML processor reads as the same names, namespaces, '
    'attribute values and character data: exactly where xml:space is preserve, and up to white-space normalisation elsewhere. The library '
    'reads it as an equal document, writing is repeatable, a copy of an element equals the original, and comparison is a total order '
    'that treats two elements as equal exactly when their content is. Documents that use namespaces are read with the '
    'expanded names the namespace recommendation prescribes, and violations of it are refused.',
    over=['inputs'],
    quantifier='all trees built from the text, attribute and element alphabets up to the bound, all combinations of xml:space and of '
    'namespace declarations, prefixes and attributes at up to three levels, all combinations of namespace declarations in start tags',
    why='The tests write a handful of documents; what breaks is a particular character in a particular place, or a prefix that is '
    'declared again further in.',
    files=[XM + 'structures.py', 'pyslet/pyslet/xmlnames20091208.py'],
    mechanism=[('writing', XM + 'structures.py Element.GenerateXML, GetCanonicalChildren, EscapeCharData'),
               ('namespaces', 'pyslet/pyslet/xmlnames20091208.py XMLNSElementContainerMixin, XMLNSParser')],
    rule='every tree is built through the API, copied, written in several forms, read by the JDK parser and by the library, and '
         'compared with the tree; states counts distinct trees and documents',
    assumptions=['the JDK parser is right', 'undeclared prefixes of attributes are tolerated (the existing tests need that)'],
    technique='bounded exhaustive enumeration of documents: write/read round trips against an independent reference parser',
    note='All children sequences and attribute values up to length 3 (thorough 4), three levels of xml:space and namespaces, all pairs of '
    'attributes and declarations. Trusts the JDK parser.')

QT = 'pyslet/pyslet/qtiv2/'

add('C10', module='c10',
    title='QTI v2 expressions: every operator gives the value the specification defines',
    statement='Every operator of the QTI v2 expression language, whatever its operands (any base type and cardinality, NULL or not, '
    'typed or not) and attributes, gives the value the specification defines: a legal value of the defined type, NULL where the '
    'specification says NULL, and a processing error (never another exception, never a hang) exactly where the operands do not fit. '
    'The random operators can give every result in their range and no other. Mappings, area mappings and lookup tables give the '
    'defined score. Values read from text, written, copied and assigned to a session variable are unchanged, and an assignment that does '
    'not fit is refused.',
    over=['inputs'],
    quantifier='all operators, all tuples of operands from a pool of about 90 values of all types and cardinalities, all settings of the '
    'attributes, all outcomes of the random generator',
    why='Tests evaluate a few examples of each operator; what NULLs, empty containers, infinite or out-of-range numbers and mixed types do '
    'cannot be settled by examples.',
    files=[QT + 'expressions.py', QT + 'variables.py', QT + 'core.py', 'pyslet/pyslet/xsdatatypes20041028.py'],
    mechanism=[('operators', QT + 'expressions.py Expression.Evaluate'),
               ('values', QT + 'variables.py Value and subclasses'),
               ('scoring', QT + 'variables.py Mapping, AreaMapping, LookupTable')],
    rule='every operator is evaluated on every tuple of operands with every attribute setting and compared with a reference evaluator; '
         'random choices are explored exhaustively; states counts distinct operator and result combinations',
    assumptions=['contains is read as the existing tests have it (the first operand is contained in the second)',
                 'points on the outline of a polygon may count as in or out'],
    technique='bounded exhaustive enumeration of operands against a reference evaluator; exhaustive exploration of random choices',
    note='All pairs of a pool of about 90 values for binary operators, triples for n-ary ones over representative values; trusts the '
    'reference evaluator in checks/c10.py.')

add('C11', module='c11',
    title='QTI v2 delivery: forms, sessions and processing rules follow the specification',
    statement='A test form contains what the selection and ordering rules of its sections permit, and every permitted form can occur. '
    'Response and template processing execute their rules as the specification defines them (only the first true branch, NULL is not true, '
    'exit stops). An item session keeps saved and submitted responses apart, initialises and resets variables when the specification says, '
    'shows the current responses, and refuses parameters that do not fit without changing anything. A test session asks exactly the '
    'questions that pre-conditions and branch rules select, accounts the time to the item, its sections and its part, gives every state a '
    'key of its own, and refuses events with any other key without changing anything.',
    over=['histories', 'inputs', 'configurations'],
    quantifier='all section structures up to three levels with all flags under all random outcomes; all small rule programs; all histories of '
    'attempts, saves and submissions up to the bound; all placements of pre-conditions and branch rules in five tests with all answers',
    why='Tests follow one path through one test, sample the random forms and never leave a nested section early.',
    files=[QT + 'tests.py', QT + 'variables.py', QT + 'processing.py', QT + 'interactions.py', QT + 'items.py'],
    mechanism=[('selection and ordering', QT + 'tests.py TestForm.Select'),
               ('rules', QT + 'processing.py ResponseProcessing, TemplateProcessing'),
               ('item sessions', QT + 'variables.py ItemSessionState'),
               ('test sessions', QT + 'variables.py TestSessionState._NextQuestion, EventUpdate, AddDuration')],
    rule='every structure, program and history is executed and compared with a reference model; random choices and the clock are under '
         'control and explored; states counts distinct structures, programs and session states',
    assumptions=['linear individual test parts (the others are not implemented)', 'branch rules lead forward'],
    technique='explicit-state exploration of sessions and exhaustive exploration of random choices on the real code, against reference models',
    note='Sections of up to 3 parts, 3 levels; item histories of up to 3 (thorough 4) requests; 5 test structures. Trusts the reference models.')

add('C12', module='c12',
    title='URIs: parsing, resolving, relating and escaping follow RFC 2396',
    statement='Every string is parsed into the parts that RFC 2396 defines or refused with a URIException, and written back unchanged. '
    'Resolving a reference against a base (given as an argument, or by a document and the xml:base attributes of nested elements) gives what RFC 2396 section 5.2 '
    'gives; resolving is associative; and a URI made relative to a base resolves to itself again. Canonical forms are canonical: '
    'equivalent URLs (scheme, host, default port, needless escapes) have one form, which is its own canonical form, and others differ. '
    'Escaping is reversed by unescaping, leaves no character that a URI may not have, and malformed escapes are left alone. A file path survives the conversion to '
    'a file URL and back.',
    over=['inputs'],
    quantifier='all strings of up to 4 (thorough 5) URI tokens; all references with paths of up to 3 (thorough 4) segments against 17 bases; all pairs of '
    'relative references; all server-based authorities from component pools; all byte pairs for escaping; all file names of up to two special characters; all three-level nestings of bases',
    why='The tests contain the examples of the RFC; empty segments, colons in segments, bases without a path, queries and malformed escapes are not among them.',
    files=['pyslet/pyslet/rfc2396.py', 'pyslet/pyslet/rfc2616_params.py', XM + 'structures.py', 'pyslet/pyslet/vfs.py'],
    mechanism=[('parsing', 'pyslet/pyslet/rfc2396.py URI.ParseSchemeSpecificPart, ParseRelativeURI, SplitServer'),
               ('resolving', 'pyslet/pyslet/rfc2396.py URI.Resolve, URI.Relative, NormalizeSegments'),
               ('escaping', 'pyslet/pyslet/rfc2396.py EscapeData, UnescapeData, CanonicalizeData'),
               ('bases', XM + 'structures.py Element.ResolveBase, RelativeURI')],
    rule='every string, pair and triple is run through the library and compared with a reference made from the RFC; states counts distinct '
         'results',
    assumptions=['".." segments that climb above the root are kept (RFC 2396 leaves this open)', 'Relative may refuse when the base is more specified than the URI'],
    technique='bounded exhaustive enumeration of URI references against a reference model of RFC 2396, with algebraic laws',
    note='Trusts the reference model in checks/c12.py (about 60 lines).')

add('C13', module='c13',
    title='ISO 8601: dates, times, time points and durations',
    statement='Every day from 0001-01-01 to 9999-12-31 has one absolute day number and calendar, ordinal, week and Julian '
    'representations that agree with the proleptic Gregorian calendar; each textual form (basic or extended, reduced or truncated '
    'with respect to a base, with any time zone and fraction) reads back as the value it was written from and reports its format; '
    'truncated forms mean the first such day or time on or after the base; offsets, zone shifts, precision changes and unix '
    'times are exact; comparison is a total order on comparable values that agrees with instants and with hashes; and what '
    'does not denote a date, time, time point or duration is refused.',
    over=['inputs'],
    quantifier='all days of the windows (thorough: all 3.65 million), all textual forms, all zones and times of the pools, all shapes of durations',
    why='Tests sample a few dates; calendar errors sit at leap years, week-year boundaries, century ends and fractions.',
    files=['pyslet/pyslet/iso8601.py'],
    mechanism=[('calendar arithmetic', 'pyslet/pyslet/iso8601.py Date._SetFromAbsoluteDay, _SetFromWeekDay, Offset'),
               ('truncated forms', 'pyslet/pyslet/iso8601.py Date._SetFromCalendarDay, Time.Extend'),
               ('parser', 'pyslet/pyslet/iso8601.py ISO8601Parser')],
    rule='every day of the stated years, every truncated form against every base, every zone pair, every duration shape',
    assumptions=['java.time is right about the Gregorian calendar', 'the refused truncated forms are those with no such day in the implied period'],
    technique='exhaustive enumeration of the real code over bounded value spaces against java.time and integer arithmetic',
    note='All days of 54 (quick) or all 9999 (thorough) years; truncated forms against 7 (51) base dates.')

add('C14', module='c14',
    title='QTI version 1 documents survive being read and written',
    statement='A QTI version 1 document, using any element of the QTI 1.2.1 DTD with any of the arrangements of children its '
    'content model permits, any of its attributes and any character data, can be read; and writing it back gives an equivalent '
    'document: the same elements in the same order with the same attributes (up to attribute defaults) and the same text. What '
    'was written reads back as the same document again. Only the documented liberty is taken (declarations of outcomes are '
    'written before their interpretations), and only dangling references to material may be refused.',
    over=['inputs'],
    quantifier='all 142 element types of the DTD, all arrangements of children with at most two repetitions, all attribute values of the pools, all texts of the pool',
    why='Tests read a handful of example documents; an element that is lost or that cannot be written is noticed only when a document uses it.',
    files=['pyslet/pyslet/qtiv1/common.py', 'pyslet/pyslet/qtiv1/item.py', 'pyslet/pyslet/qtiv1/section.py', 'pyslet/pyslet/qtiv1/assessment.py',
           'pyslet/pyslet/qtiv1/outcomes.py', 'pyslet/pyslet/qtiv1/sao.py', 'pyslet/pyslet/qtiv1/objectbank.py', 'pyslet/pyslet/imsqtiv1p2p1.py',
           'pyslet/pyslet/xml20081126/structures.py'],
    mechanism=[('dispatch of child elements', 'pyslet/pyslet/xml20081126/structures.py Element.ChildElement'),
               ('child order', 'pyslet/pyslet/qtiv1/*.py GetChildren'),
               ('attribute mappings', 'pyslet/pyslet/qtiv1/*.py XMLATTR_*')],
    rule='for each content model each particle in turn takes each of its forms, every pair of particles its longest, each repeated choice every pair of alternatives',
    assumptions=['documents are compared as the JDK reads them', 'white space in element content is not significant'],
    technique='exhaustive enumeration of the documents of a grammar, within bounds on repetition, on the real reader and writer',
    note='Every element of the DTD is also tried as a document on its own.')

add('C15', module='c15',
    title='Migrating QTI version 1 items to version 2 preserves their meaning',
    statement='A QTI version 1 item migrated to version 2 (MigrateV2) gives a document that can be written and read back the same, in '
    'which every identifier is valid, every response, outcome and variable referred to is declared (once) and bound to one '
    'interaction. Delivered, it gives for every response the SCORE (or other outcome) and the feedback that the rules of the '
    'version 1 item give: conditions, nesting, and/or/not, case, continue, actions, defaults and types alike. Its content is the '
    'content of the version 1 item: the same text, images and interactions in the same order, with the same emphasis, language '
    'and flow classes and a line break wherever there was a break or a flow, in the part of the item it belongs to, with '
    'references resolved wherever the material referred to is. Areas, views, orientations, bounds, shuffling and numbers of '
    'choices correspond. What the migration does not support is refused with QTIUnimplementedError (or logged), not '
    'migrated into something else.',
    over=['inputs'],
    quantifier='all items built from the kinds of response, rule trees of depth two, sequences of rules, arrangements of material and flows, areas and attributes listed, and all responses of the pools',
    why='Tests compare the migration of some fifteen example items with stored documents that are never run.',
    files=['pyslet/pyslet/qtiv1/common.py', 'pyslet/pyslet/qtiv1/item.py', 'pyslet/pyslet/qtiv1/core.py', 'pyslet/pyslet/imsqtiv1p2p1.py',
           'pyslet/pyslet/qtiv2/core.py', 'pyslet/pyslet/qtiv2/items.py', 'pyslet/pyslet/qtiv2/processing.py', 'pyslet/pyslet/imsqtiv2p1.py'],
    mechanism=[('rules', 'pyslet/pyslet/qtiv1/item.py RespCondition.MigrateV2Rule and pyslet/pyslet/qtiv1/common.py MigrateV2Expression'),
               ('interactions', 'pyslet/pyslet/qtiv1/item.py ResponseThing.MigrateV2Content, Render*.MigrateV2Interaction'),
               ('content', 'pyslet/pyslet/qtiv1/common.py ContentMixin.MigrateV2Content, MatText.MigrateV2Content')],
    rule='rules: an independent interpreter of version 1 rules, in three-valued logic; content: the words of the item with their marks, breaks and places; maps: tables of the specifications',
    assumptions=['a test of a response that was not given is neither true nor false, as in version 2', 'identifiers do not collide once made valid',
                 'the last pixel of a rectangle is not tested (the two specifications count it differently)', 'breaks between adjacent material elements are left open'],
    technique='exhaustive enumeration of items and responses against an interpreter of version 1, on the real migration and the real version 2 runtime',
    note='The migrated item that is run is the one read back from what was written.')

add('C16', module='c16',
    title='HTTP header values are read, written, compared and selected as HTTP defines',
    statement='Every header value that the grammar of RFC 2616 derives (HTTP versions, transfer encodings, media types and ranges, the '
    'Accept headers and their items, Accept-Ranges, Allow, Cache-Control, Content-Range, entity tags, language tags, product '
    'tokens, dates in the three formats, quoted strings, comments and words) is read as the value it denotes; a value that is '
    'not derived is refused with an exception (SyntaxError or ValueError) and never hangs, crashes or is taken for something '
    'else; what is written for a value can be read again as that value. Values compare in the documented order, a total order '
    'that agrees with equality and with hashes, also when compared with strings. The best of a list of types, tokens or languages is '
    'the first of highest quality under the most specific matching range, never one of quality zero. The accessors of messages '
    'give what was set or received.',
    over=['inputs'],
    quantifier='all short sequences of the fragments of each production, all documents one (or two) changes away from long valid ones, all pairs and triples of the pools, all lists of up to three accept items with all listed offers',
    why='Tests read a handful of good values; a header comes from the other side and may be anything.',
    files=['pyslet/pyslet/rfc2616_core.py', 'pyslet/pyslet/rfc2616_params.py', 'pyslet/pyslet/rfc2616_headers.py', 'pyslet/pyslet/rfc2616.py'],
    mechanism=[('lexical analysis', 'pyslet/pyslet/rfc2616_core.py HTTPParser, WordParser'),
               ('productions', 'pyslet/pyslet/rfc2616_params.py ParameterParser, pyslet/pyslet/rfc2616_headers.py HeaderParser'),
               ('selection', 'pyslet/pyslet/rfc2616_headers.py AcceptList.SelectType, AcceptTokenList.SelectToken, AcceptLanguageList.SelectLanguage'),
               ('accessors', 'pyslet/pyslet/rfc2616.py HTTPMessage')],
    rule='every fragment sequence is judged by an independent grammar (regular expressions of the productions), which also gives the value',
    assumptions=['values the specification leaves open (a repeated parameter, q values with too many digits, an empty list) may be refused or read'],
    technique='exhaustive enumeration of the real code over bounded languages against a reference grammar and a reference selection',
    note='Comparison laws are checked on all triples of each pool.')

add('C17', module='c17',
    title='The HTTP client frames, matches and ends its exchanges correctly',
    statement='Whatever the segmentation of the byte streams, a request to the HTTP client is sent exactly once per attempt, as one '
    'well-formed HTTP/1.1 message with its method, URL, Host, headers and body (string or stream, with a length or chunked); the '
    'response to it is given its status, reason, headers and body, delimited as RFC 2616 defines (lengths, chunks with '
    'extensions and trailers, closing, HEAD, 1xx, 204, 304), and the next response on the connection is not touched. '
    'Pipelined requests get their own responses in order; a non-idempotent request waits until what was before it has been '
    'answered. If the server closes or resets the connection before a response is complete, or sends something that is no '
    'response, the request ends as failed, with the error, no exception escapes, nothing hangs and the manager stays usable. '
    'Each request is finished exactly once. Redirections go to the resolved location, keep the request, and are not followed '
    'where they must not be; credentials are tried for the challenges they match, once, and are sent to nobody else. The pool never '
    'has more connections than allowed.',
    over=['inputs', 'histories', 'crash points'],
    quantifier='all messages of the forms listed, cut at every point (thorough: at every two points) or everywhere, truncated at every byte by closing or reset; all sequences of up to three (four) requests, answered at once or late; all operations on the pool to depth four (five)',
    why='Tests have one server that always answers well, in random pieces; errors sit at particular cut and crash points.',
    files=['pyslet/pyslet/rfc2616.py', 'pyslet/pyslet/rfc2617.py'],
    mechanism=[('state machine of a connection', 'pyslet/pyslet/rfc2616.py Connection.ConnectionTask, _RecvResponseData, _SendRequestData, Close'),
               ('framing of responses', 'pyslet/pyslet/rfc2616.py HTTPResponse.RecvLine, RecvBytes, HTTPMessage.CalculateTransferLength'),
               ('framing of requests', 'pyslet/pyslet/rfc2616.py HTTPRequest.ReadRequestHeader, ReadRequestBody'),
               ('redirection and credentials', 'pyslet/pyslet/rfc2616.py HTTPRequest.Finished, pyslet/pyslet/rfc2617.py'),
               ('pool', 'pyslet/pyslet/rfc2616.py HTTPRequestManager')],
    rule='every message is generated with its meaning; every segmentation and truncation of it must give that meaning, or failure',
    assumptions=['sockets are replaced by scripted ones (NewSocket is overridden, as the tests do); the clock is simulated', 'messages are refused only for what RFC 2616 does not allow; a client may wait for more of what is no message'],
    technique='exhaustive enumeration of segmentations, crash points and request sequences on the real state machine with a scripted network',
    note='Redirect loops are not bounded by the client and not explored.')

add('C18', module='c18',
    title='A content package stays inside its directory and agrees with its manifest',
    statement='Opening a content package (a directory, a manifest, an archive or a new temporary one) and any sequence of adding references, copying '
    'files in, deleting files, choosing entry points, saving, reopening, rebuilding and exporting never creates, changes or '
    'removes anything outside the package directory, whatever names an archive contains and whatever is referred to, and never lets the manifest '
    'itself or an ignored file be registered, overwritten or deleted as a file of a resource. At all times the file table is '
    'exactly what the files present and the references in the manifest give. A file copied in, or a unique name asked for, '
    'never coincides with a file, directory or reference there is. Deleting a file removes the file and every reference to it. '
    'Exporting a package and opening the archive gives the same files and the same manifest; an archive is unpacked as it is '
    'or refused with an error of the package module. A temporary directory is removed when the package is closed or cannot be '
    'opened, also when the file system fails; only temporary directories are removed, and after a failed operation the '
    'table still agrees with the files and the manifest.',
    over=['inputs', 'histories', 'crash points'],
    quantifier='all sequences of two of 110 operations (thorough: of three of 50); all archives of up to two (three) of 29 names with and without contents; every single failing file system call of eleven scenarios; all combinations of suggested names and packages listed',
    why='Tests use three well-formed packages and look at a few results of single operations.',
    files=['pyslet/pyslet/imscpv1p2.py', 'pyslet/pyslet/vfs.py'],
    mechanism=[('containment', 'pyslet/pyslet/imscpv1p2.py PathInPath, ContentPackage.PackagePath, ExpandZip'),
               ('file table', 'pyslet/pyslet/imscpv1p2.py ContentPackage.RebuildFileTable, File, FileCopy, DeleteFile'),
               ('interchange', 'pyslet/pyslet/imscpv1p2.py ContentPackage.ExportToPIF, AddToZip, ExpandZip'),
               ('names', 'pyslet/pyslet/imscpv1p2.py ContentPackage.GetUniqueFile, pyslet/pyslet/vfs.py OSFilePath')],
    rule='every history runs on the real file system below a scratch directory and is compared, step by step, with a model of the files and the references',
    assumptions=['child manifests are not looked into', 'names in archives with empty, . or .. segments may be refused', 'one transient failure at a time'],
    technique='exhaustive exploration of operation histories, archives and single faults of the file system on the real code against a model; archives are written and read by independent code',
    note='Calls that change the file system are replaced by ones that refuse anything outside the scratch directory.')

add('C19', module='c19',
    title='OData values and entities survive their representations',
    statement='Whatever the value of a property (any of the fifteen EDM simple types, NULL, complex), writing it as a literal, a '
    'URI literal, JSON or Atom and reading it again gives the same value (JSON dates: to the millisecond; with a declared precision: '
    'to that precision) and leaves the original alone. A literal is read as exactly what it says when it has the form the CSDL '
    'defines, and is otherwise refused with ValueError, or read as what it plainly says; setting a value from a Python value or casting '
    'it gives the documented conversion or TypeError/ValueError, and a refused literal or conversion leaves the value unchanged. '
    'An entity that is written, as a new entity with links, as an update, or as an existing entity with selected and expanded '
    'properties, in JSON or as an Atom entry with any feed customisation, is read with the same properties, links, expansions '
    'and selection.',
    over=['inputs', 'configurations'],
    quantifier='all values of the boundary sets of every simple type and precision, all combinations of literal pieces, all pairs of target type '
    'and source value, all combinations of property values, links, selections and customised targets listed',
    why='The unit tests look at one or two values of each type and at fixed documents of one service.',
    files=[OD + 'csdl.py', OD + 'core.py', OD + 'metadata.py'],
    mechanism=[('simple values', OD + 'csdl.py SimpleValue classes, Parser'),
               ('URI literals', OD + 'core.py LiteralExpression, Parser.ParseURILiteral'),
               ('JSON', OD + 'core.py EntityPropertyValueInJSON, ReadEntityPropertyValueInJSON, Entity.GenerateEntityTypeInJSON, SetFromJSONObject'),
               ('Atom', OD + 'core.py Property, Entry, Link; metadata.py FeedCustomisationMixin')],
    rule='every value goes through the real writer and the real reader (JSON and XML parsed in between) and is compared with an abstract value made without the library',
    assumptions=['characters that XML cannot represent are left out of the Atom representation', 'the text of infinities is not fixed'],
    technique='exhaustive enumeration of bounded values, literals and entities, each driven through the real writers and readers and compared with an independent reference',
    note='Exhaustive over the listed boundary sets; trusts the reference readings in checks/c19.py.')

add('C20', module='c20',
    title='The OData client does on the service what its collections say',
    statement='Operations of the client\'s collections (insert with and without links, update, delete, link, unlink, replace, insert '
    'through a navigation property) leave the service, after any history of them, in the state that the same operations '
    'define for a local collection, or fail and leave it unchanged; what the client\'s collections then show is that state. A client collection '
    'with any filter, order, $select and $expand, on an entity set or a navigation property, however the service splits its answers into '
    'pages, yields exactly the matching entities in order, showing exactly the selected properties and expanded links; len, keys and looking '
    'up a key agree with it; pages, the next page and skip tokens divide the same sequence with nothing lost or repeated. The stream '
    'of a media link entry, its type and its size are the same however the entity was reached.',
    over=['histories', 'inputs'],
    quantifier='all histories of operations up to the depth stated per model (1 or 2), from the empty service, for one or two entities per set and every multiplicity '
    'and direction of navigation; all combinations of the filters, orders, expand/select options, pages and page limits listed',
    why='The unit tests run the client against a fixed public service and do a few operations; the client is never compared with what it asked for.',
    files=[OD + 'client.py', OD + 'memds.py', OD + 'server.py'],
    mechanism=[('collections and pages', OD + 'client.py ClientCollection.entityGenerator, iterpage, __getitem__, __len__'),
               ('changes', OD + 'client.py EntityCollection.UpdateEntity, InsertEntity, __delitem__; NavigationCollection'),
               ('streams', OD + 'client.py Entity.GetStreamGenerator, GetStreamType, GetStreamSize'),
               ('the service', OD + 'server.py HandleRequest; memds.py EntityCollection, NavigationCollection')],
    rule='the real client talks to the real server in process; after every operation the service is compared with the reference model of C01, and every query with the rows of C04',
    assumptions=['the network does not fail (see C17)', 'an entity is inserted through a navigation property in two steps unless it needs the link, as the client documents'],
    technique='exhaustive breadth-first exploration of operation histories and enumeration of queries on the real client and server against a reference model',
    note='In-process transport, no sockets; exhaustive within the stated depths and options.')
