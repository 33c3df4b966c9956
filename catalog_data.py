# p(id, title, statement, over, quantifier text, why tests cannot, files, mechanisms)
p('C01', 'UTF-8 transcoding is lossless, exact and independent of buffer boundaries',
  'Encoding any sequence of BMP characters to UTF-8 and decoding it again gives back the same characters, and the encoded bytes are the Unicode standard\'s, whatever the sizes of the buffers the conversion is driven with. A conversion whose output exactly fits is carried out, and a decoder fed arbitrary bytes never reads or writes outside its buffers, always reports how far it got, and makes progress or says why not.',
  'inputs', 'every BMP string and every byte string up to the bound, every split into buffers', 'The tests convert a dozen fixed strings through large buffers; they never vary the window sizes or feed truncated or malformed sequences.',
  ['include/convert/utf8ucs2codecvt.hpp', 'src/convert/utf8ucs2codecvt.cpp', 'src/convert/ucs2utf8codecvt.cpp', 'src/convert/utf16utf8codecvt.cpp', 'src/convert/impl/ucs2_utf8.cpp'],
  [('utf8_2_ucs2 / ucs2_2_utf8', 'src/convert/impl/ucs2_utf8.cpp'), ('do_in/do_out', 'src/convert/utf8ucs2codecvt.cpp')])
p('C02', 'Base64 encoding is the RFC encoding and decodes back to the same bytes',
  'Encoding any byte sequence gives its RFC 4648 base64 form, correctly padded, and decoding that form gives back the original bytes, whatever sizes of chunks the data is delivered in.',
  'inputs', 'every message up to the bound, every chunking', 'The tests encode a handful of ASCII phrases in one call each; padding, embedded zero bytes and chunk boundaries are not exercised.',
  ['include/convert/base64codecvt.hpp', 'src/convert/base64codecvt.cpp'], [('consume/write state machine', 'src/convert/base64codecvt.cpp')])
p('C03', 'Latin-1, UTF-16, rot13 and default facets convert exactly and stay in bounds',
  'Every other character set conversion gives, for every input, the characters the target encoding defines for it (a replacement where it has none), inverts back where an inverse exists, and never touches memory outside the buffers it was given, even when the input stops part way through a character or the output is just big enough.',
  'inputs', 'every text and every byte string up to the bound, every window', 'Tests convert single short well-formed strings; truncated input and exact-fit output never occur there.',
  ['src/convert/iso88591utf8codecvt.cpp', 'src/convert/utf8iso88591codecvt.cpp', 'src/convert/utf16beucs2codecvt.cpp', 'src/convert/utf16leucs2codecvt.cpp', 'src/convert/rot13codecvt.cpp', 'src/convert/impl/iso88591_utf8.cpp', 'src/convert/impl/ucs2_utf16.cpp', 'src/convert/impl/codecvt_specialisations.cpp'],
  [('iso88591/utf16 workers', 'src/convert/impl'), ('facet wrappers', 'src/convert')])
p('C04', 'Converting streams and adaptors deliver exactly the converted characters',
  'What comes out of a converting stream, stream adaptor or string adaptor is the conversion of precisely what went in: nothing is lost, repeated or reordered at internal buffer boundaries, on flushing, on put-back, or on construction and destruction, and reading always terminates.',
  'inputs histories', 'every content up to the bound, characters straddling the internal chunk boundary, every flush pattern', 'Tests push short strings through once, well inside a single internal buffer.',
  ['include/io/convert_adaptor.hpp', 'include/io/convertstream.hpp', 'include/Arabica/StringAdaptor.hpp'],
  [('underflow/readIn, overflow/writeOut', 'include/io/convert_adaptor.hpp'), ('basic_iconvertbuf', 'include/io/convertstream.hpp')])
p('C05', 'XML character classes, names and qualified names match the XML 1.0 grammar',
  'Every code point is classified (letter, digit, combining, extender, name character, space, legal character) exactly as the XML 1.0 productions say, names are accepted exactly when the NCName and QName productions derive them, and parsing a qualified name splits it at its colon, resolves its prefix by the declarations in force, gives unprefixed elements the default namespace and unprefixed attributes none, and refuses every malformed name.',
  'inputs', 'every code point; every short name; every set of declarations drawn from the harness', 'The tests try about forty names and no character class table entries.',
  ['src/XML/XMLCharacterClasses.cpp', 'include/XML/XMLCharacterClasses.hpp', 'include/XML/strings.hpp', 'include/XML/QName.hpp'],
  [('range tables', 'src/XML/XMLCharacterClasses.cpp'), ('is_ncname/is_qname', 'include/XML/strings.hpp'), ('parseQName', 'include/XML/QName.hpp')],
  'The reference tables were generated from libxml2 and are committed.')
p('C06', 'Escaped text and attribute values read back unchanged; whitespace normalises',
  'Any string of XML characters written through the text or attribute escaper is well formed in that position and an XML reader recovers exactly the original string. Whitespace normalisation strips the ends, turns each inner run into one space, leaves other characters alone and is idempotent.',
  'inputs', 'every string up to the bound', 'The tests look at a few fixed strings; no test feeds the escapers control characters or reads their output back.',
  ['include/XML/escaper.hpp', 'include/text/normalize_whitespace.hpp'], [('text_escaper, attribute_escaper', 'include/XML/escaper.hpp'), ('normalize_whitespace', 'include/text/normalize_whitespace.hpp')])
p('C07', 'URI references parse, print and resolve as RFC 3986 says',
  'A URI made of scheme, authority and path is taken apart into exactly those parts and prints back as itself; resolving a relative reference against a base follows RFC 3986 section 5.2 (merging, removal of dot segments, authority and scheme inheritance), and no string whatever makes parsing or resolving crash or throw.',
  'inputs', 'every scheme kind, host, port and path up to the bound; arbitrary bytes for the crash freedom part', 'The tests use a dozen fixed URIs; empty directories, ports without paths and rooted dot segments are not among them.',
  ['include/io/uri.hpp', 'src/io/uri.cpp'], [('parse, combinePath, as_string', 'src/io/uri.cpp')], 'Queries, fragments and DOS drive letters are outside the statement.')
p('C08', 'Namespace contexts nest: a prefix means its innermost declaration in force',
  'After any history of pushing and popping contexts and declaring prefixes, a prefix resolves to its innermost live declaration and to nothing when there is none, popping restores exactly what was in force before, the listings name each prefix in force once and never the default or an overridden one, and the reserved prefixes cannot be redeclared.',
  'histories', 'every history of push, pop, declare and reset up to the bound, with symbolic prefixes and URIs', 'The tests declare one or two prefixes in one or two contexts and look them up once.',
  ['include/SAX/helpers/NamespaceSupport.hpp', 'include/XML/QName.hpp'], [('declarePrefix, getURI, getPrefixes, processName', 'include/SAX/helpers/NamespaceSupport.hpp')])
p('C09', 'An attribute list behaves as an ordered list of attribute records',
  'After any history of adding, replacing, setting, removing, clearing, copying and assigning, an AttributesImpl holds exactly the records a plain list would, by index and by name lookup (first match wins), and an out of range modification is refused and changes nothing.',
  'histories', 'every history up to the bound, with symbolic names and values', 'The tests cover single operations on lists of up to three attributes, never removal in the middle followed by lookups, nor assignment of a list to itself.',
  ['include/SAX/helpers/AttributesImpl.hpp'], [('AttributesImpl', 'include/SAX/helpers/AttributesImpl.hpp')])
p('C10', 'Written XML reads back as the events it was written from',
  'A SAX event stream fed to the Writer, or a PYX writer, produces well-formed output that a reader turns back into the same events: names, attribute values, text, comments, processing instructions, namespace declarations (each once) and document type declarations. Indentation adds only white space between markup and never alters text.',
  'inputs', 'every short event sequence, with arbitrary XML characters in any one place', 'The tests compare the output for a few fixed documents; contents needing escapes in attributes, defaults, entity values and system identifiers are not among them.',
  ['include/SAX/filter/Writer.hpp', 'include/XML/escaper.hpp'], [('Writer', 'include/SAX/filter/Writer.hpp')])
p('C11', 'SAX filters pass on every event, changed only as each filter promises',
  'A plain filter delivers every event to its handlers unchanged and in order. The text coalescer joins adjacent text and reorders nothing, the whitespace stripper normalises the white space of text and drops ignorable white space, the text-only filter passes only document start, document end and text, the namespace tracker and base tracker know the declarations and base URI in force at each point, and PYX output escapes all that must be escaped.',
  'inputs histories', 'every event kind, and every short sequence of events with symbolic contents', 'The tests send one or two fixed event sequences to some of the filters; two filters could not be compiled.',
  ['include/SAX/helpers/XMLFilterImpl.hpp', 'include/SAX/filter/TextCoalescer.hpp', 'include/SAX/filter/WhitespaceStripperFilter.hpp', 'include/SAX/filter/TextOnly.hpp', 'include/SAX/filter/NamespaceTracker.hpp', 'include/SAX/filter/XMLBaseTracker.hpp', 'include/SAX/helpers/XMLBaseSupport.hpp', 'include/SAX/filter/PYXWriter.hpp'],
  [('forwarding', 'include/SAX/helpers/XMLFilterImpl.hpp'), ('filters', 'include/SAX/filter')])
p('C12', 'The expat wrapper reports exactly what expat found, whatever fails',
  'For any sequence of expat callbacks the wrapper reports the matching SAX events: names resolved by the declarations in force under each namespace mode, prefix mappings opened and closed around their element, declarations and content models as declared. The input is handed to expat whole, in order, once. Any failure (malformed input, no memory, a failing stream, a handler or entity that throws) is reported once, ends the parse, frees every parser, and leaves the wrapper as good as new.',
  'inputs histories faults', 'every short callback sequence in each mode; a failure at any buffer or callback', 'The tests parse well-formed documents smaller than one buffer, and never fail part way through or reuse a reader.',
  ['include/SAX/wrappers/saxexpat.hpp', 'src/SAX/wrappers/saxexpat.cpp'], [('expat_wrapper', 'include/SAX/wrappers/saxexpat.hpp')], 'The expat library itself is replaced by a stand-in that makes the callbacks.')
p('C13', 'Input sources own their streams safely and resolve to the named content',
  'Through any history of copying, assigning (also to itself), adopting, borrowing and releasing, an input source refers to the stream it was last given, an owned stream is destroyed exactly once after its last user, a borrowed one never, and a source without a stream opens the file its system identifier names.',
  'histories', 'every history up to the bound on three sources', 'No test copies or assigns an input source, and adopting a stream did not compile.',
  ['include/SAX/IStreamHandle.hpp', 'include/SAX/InputSource.hpp', 'include/SAX/helpers/InputSourceResolver.hpp', 'src/SAX/helpers/InputSourceResolver.cpp'],
  [('IStreamHandle', 'include/SAX/IStreamHandle.hpp'), ('InputSourceResolver', 'src/SAX/helpers/InputSourceResolver.cpp')], 'Resolution over HTTP is outside the statement.')
p('C14', 'Tree operations keep the DOM a tree and do what DOM Level 2 says, or nothing',
  'Appending, inserting, replacing and removing nodes moves exactly the nodes the DOM specification says to exactly the place it says. Parent, child, sibling, owner document, document element and document type links always agree with one another and no node is ever its own ancestor. An operation that would break the tree is refused with an error that applies and leaves every node untouched. No node is lost or leaked.',
  'histories', 'every operation on any target, child and reference of a pool of nodes of all kinds, followed by further ones', 'The tests exercise operations that succeed and a few that fail, and look at the nodes just moved, never at whether a refused operation left the rest of the tree alone.',
  ['include/DOM/Simple/NodeImpl.hpp', 'include/DOM/Simple/DocumentImpl.hpp', 'include/DOM/Simple/DocumentFragmentImpl.hpp', 'include/DOM/Node.hpp'],
  [('insertBefore, replaceChild, removeChild, appendChild', 'include/DOM/Simple/NodeImpl.hpp'), ('document element and type', 'include/DOM/Simple/DocumentImpl.hpp')])
p('C15', 'An element\'s attributes are what was last set, however they are set or looked up',
  'After any history of setting and removing attributes by name, by namespace, as nodes or through the attribute map, every lookup agrees on exactly the attributes last set, with their values. Setting a value keeps the attribute node, an attribute has one owner at a time and none once removed or replaced, one that belongs elsewhere is refused without effect, a declared default stands in for a missing attribute exactly once, and an element is found by the id it has now.',
  'histories', 'every history of the operations up to the bound over attribute nodes of every origin, with and without declared defaults and ids, values symbolic', 'The tests set and read single attributes; they do not mix the three ways of naming one, follow a removed or refused attribute, or change text inside attribute values.',
  ['include/DOM/Simple/AttrMap.hpp', 'include/DOM/Simple/NamedNodeMapImpl.hpp', 'include/DOM/Simple/AttrImpl.hpp', 'include/DOM/Simple/AttrNSImpl.hpp', 'include/DOM/Simple/ElementImpl.hpp', 'include/DOM/SAX2DOM/DocumentTypeImpl.hpp'],
  [('AttrMap', 'include/DOM/Simple/AttrMap.hpp'), ('NamedNodeMapImpl', 'include/DOM/Simple/NamedNodeMapImpl.hpp'), ('getElementById', 'include/DOM/Simple/DocumentImpl.hpp')])

p('C16', 'Character data operations act exactly on the characters they name',
  'Setting, appending, inserting, deleting, replacing and taking substrings of a text, comment or CDATA node changes exactly the characters from the offset for the count (or to the end), refuses offsets outside the data and negative counts without effect, and splitting a text node leaves its two halves adjacent in place of the whole, same kind, wherever it is. Normalising joins adjacent text, drops empty text, and changes nothing else.',
  'inputs', 'every data, offset and count up to the bound and the extreme integers; every sequence of children up to the bound', 'The tests use one string and offsets inside it; no test splits a node that has no parent or passes an extreme count.',
  ['include/DOM/Simple/CharacterDataImpl.hpp', 'include/DOM/Simple/TextImpl.hpp', 'include/DOM/Simple/CDATASectionImpl.hpp', 'include/DOM/Simple/NodeImpl.hpp'],
  [('CharacterDataImpl', 'include/DOM/Simple/CharacterDataImpl.hpp'), ('splitText', 'include/DOM/Simple/TextImpl.hpp'), ('normalize', 'include/DOM/Simple/NodeImpl.hpp')])
p('C17', 'Copies of DOM nodes are equal and separate, and node lists are live',
  'Cloning or importing any node gives a new parentless node with the same names, value, attributes and (when deep) children, belonging to the document asked, and changing either leaves the other as it was. Lists of elements by tag name, with and without namespaces, hold exactly the matching elements in document order whenever they are asked, whatever was changed in between. Proxies keep their document alive exactly as long as they last, also through self-assignment.',
  'histories', 'every node kind to the depth bound; every query and every change from the pool', 'The tests clone two node kinds and ask lists once, before anything changes.',
  ['include/DOM/Simple/NodeImpl.hpp', 'include/DOM/Simple/ElementImpl.hpp', 'include/DOM/Simple/DocumentImpl.hpp', 'include/DOM/Simple/ElementByTagImpl.hpp', 'include/DOM/Proxy.hpp'],
  [('cloneNode', 'include/DOM/Simple/ElementImpl.hpp'), ('importNode', 'include/DOM/Simple/DocumentImpl.hpp'), ('ElementByTagImpl', 'include/DOM/Simple/ElementByTagImpl.hpp')])
p('C18', 'XPath functions, arithmetic and conversions compute what XPath 1.0 defines',
  'Every core string, number, boolean and node-set function except id and lang, every arithmetic operator, and every conversion between strings, numbers, booleans and node-sets gives the value XPath 1.0 section 4 defines, for every argument, including negative zero, infinities, not-a-number, positions outside the string and strings that merely look like numbers.',
  'inputs', 'any doubles where the solver can decide them, otherwise every double of a table of extremes; every string up to the bound', 'The tests try one or two ordinary arguments per function.',
  ['include/XPath/impl/xpath_function.hpp', 'include/XPath/impl/xpath_arithmetic.hpp', 'include/XPath/impl/xpath_object.hpp', 'include/XPath/impl/xpath_value.hpp', 'include/XPath/impl/xpath_logical.hpp'],
  [('functions', 'include/XPath/impl/xpath_function.hpp'), ('conversions', 'include/XPath/impl/xpath_object.hpp')], 'Characters are those of the string type: bytes in narrow strings.')
p('C19', 'XPath comparisons follow the XPath 1.0 conversion rules for every pair of types',
  'Comparing any two booleans, numbers, strings or node-sets with any of the six operators gives the result section 3.4 of XPath 1.0 defines: existentially over the nodes of node-sets, with conversion to boolean, number or string as the pair of types requires, and false for any numeric comparison with not-a-number except !=.',
  'inputs', 'every pair of types and operator, values symbolic, node-sets up to the bound on both sides', 'The tests compare a few literal pairs; most of the 96 combinations of types and operator, and empty node-sets, never occur.',
  ['include/XPath/impl/xpath_relational.hpp', 'include/XPath/impl/xpath_object.hpp', 'include/XPath/impl/xpath_logical.hpp'],
  [('relational operators', 'include/XPath/impl/xpath_relational.hpp'), ('areEqual, isLessThan', 'include/XPath/impl/xpath_object.hpp')])

p('C20', 'XPath axes and node tests select exactly the nodes of the XPath data model',
  'From any node of any tree (in a document, a fragment or on its own) each of the thirteen axes with each node test selects exactly the nodes XPath 1.0 section 2.2 says: adjacent text is one node, attributes and namespaces are not children, the document type is no node at all, and a prefix has one namespace node. Every node-set holds each node once and sorts into the one document order, however it was come by.',
  'inputs', 'every tree of the shapes the harness builds, with symbolic names; every context node, axis and test', 'The tests use two fixed documents and a handful of contexts, with no adjacent text, document type, detached tree or overridden prefix.',
  ['include/XPath/impl/xpath_axis_enumerator.hpp', 'include/XPath/impl/xpath_node_test.hpp', 'include/XPath/impl/xpath_object.hpp', 'include/XPath/impl/xpath_namespace_node.hpp'],
  [('axis walkers', 'include/XPath/impl/xpath_axis_enumerator.hpp'), ('compareNodes, NodeSet', 'include/XPath/impl/xpath_object.hpp')])
p('C21', 'XPath location paths, predicates, filters and unions mean what XPath 1.0 says',
  'A location path, however abbreviated, selects from any context node what its steps select in turn; predicates number nodes along the axis (backwards on reverse axes), one after another, and on filter expressions in document order; position(), last() and nested paths see the context of their own predicate; a union has the nodes of both sides once; and the string of a node-set is that of its first node in document order.',
  'inputs', 'every path, filter and union of the grammar the harness draws from, from every node of its trees, with symbolic names and predicate numbers', 'The tests evaluate some two hundred fixed expressions on two documents, few with more than one predicate or a predicate on a reverse axis.',
  ['include/XPath/impl/xpath_step.hpp', 'include/XPath/impl/xpath_union.hpp', 'include/XPath/impl/xpath_parser.hpp', 'include/XPath/impl/xpath_expression.hpp'],
  [('applyPredicate, RelativeLocationPath', 'include/XPath/impl/xpath_step.hpp'), ('UnionExpression', 'include/XPath/impl/xpath_union.hpp')])
p('C22', 'XPath expressions are read as the grammar of XPath 1.0 reads them',
  'A string compiles as an expression exactly when the grammar of XPath 1.0 derives it (an operator\'s name need not be set apart from what follows it), and then means what the grammar says: precedence, grouping to the left, whitespace between tokens, abbreviations, literals, numbers and names from any script, with reserved words still usable as names. Anything else is refused with an XPath exception, crashing nothing and leaving nothing behind.',
  'inputs', 'every short string over the characters of the grammar in several contexts; every choice of operators over symbolic operands', 'The tests compile some hundred well-formed expressions and almost none that should be refused.',
  ['include/XPath/impl/xpath_grammar.hpp', 'include/XPath/impl/xpath_parser.hpp', 'include/XPath/impl/xpath_compile_context.hpp'],
  [('grammar productions', 'include/XPath/impl/xpath_grammar.hpp'), ('createExpression and factories', 'include/XPath/impl/xpath_parser.hpp')], '"$ x" with space inside a variable reference, id() and lang() are outside.')
p('C23', 'XSLT match patterns and attribute value templates mean what XSLT 1.0 says',
  'A pattern matches a node exactly when some ancestor-or-self of the node exists from which evaluating the pattern as an expression selects the node, whatever its steps, predicates and separators, and its alternatives have the default priorities of XSLT 1.0 section 5.5. A string compiles as a pattern exactly when the pattern grammar derives it. A non-empty attribute value template gives its text with {{ and }} halved and each expression replaced by its string, and is refused when its braces do not pair around expressions.',
  'inputs', 'every pattern of the grammar the harness draws from, against every node of its trees, with symbolic names and predicate numbers; every short string over the characters of patterns and templates', 'The tests match some sixty fixed patterns, most on the nodes they should match, and try a handful of templates.',
  ['include/XPath/impl/xpath_match.hpp', 'include/XPath/impl/xpath_match_rewrite.hpp', 'include/XPath/impl/xpath_grammar.hpp', 'include/XPath/impl/xpath_step.hpp'],
  [('MatchExpr', 'include/XPath/impl/xpath_match.hpp'), ('MatchExpressionWrapper, rewriting', 'include/XPath/impl/xpath_match_rewrite.hpp')], 'id(), patterns with variables bound by stylesheets, and trees without a document are outside.')
p('C24', 'A DOM written to a stream reads back as the DOM it was',
  'Streaming any document, fragment, element (from inside a document, or never in one) or other node writes well-formed XML whose elements and attributes have the namespaces, names and values of the DOM\'s, whatever prefixes the nodes carry and whatever declarations are there as attributes, and whose text, CDATA, comments, processing instructions and entity references are those of the DOM, in place. Writing it again writes the same, and leaves nothing behind.',
  'inputs', 'every tree of the shapes the harness builds, with symbolic prefixes and namespaces; any characters in every place', 'The tests stream parsed documents, whose prefixes and declarations already agree, and mostly compare what the same code writes for both.',
  ['include/DOM/io/Stream.hpp', 'include/XML/escaper.hpp'],
  [('PrefixStack, prefix_mapper, streamCDATA, operator<<', 'include/DOM/io/Stream.hpp')], 'Comments with -- and processing instructions with ?> cannot be written at all; document types are not written; elements made without namespaces but with a colon in their name are outside.')

p('C25', 'SAX2DOM builds the document its reader reports',
  'For any sequence of SAX events the document built has a node of the kind, name, namespace and value reported for each, in place, with runs of text in one node and CDATA apart; entities stand expanded wherever and however often they are referred to, and the document type holds the entities, notations, defaults and ids declared. Any error reported, or node refused, leaves no document and is passed on once; and the parser can then be used again as if new.',
  'inputs histories faults', 'every short sequence of content events, declarations and entity references, in and out of namespaces, with trouble at any point', 'The tests parse fixed well-formed documents with expat, which reports no internal entities, and use each parser once.',
  ['include/DOM/SAX2DOM/SAX2DOM.hpp', 'include/DOM/SAX2DOM/DocumentTypeImpl.hpp', 'include/SAX/filter/TextCoalescer.hpp', 'include/DOM/Simple/DocumentTypeImpl.hpp'],
  [('Parser', 'include/DOM/SAX2DOM/SAX2DOM.hpp')], 'The reader is a stand-in that reports the events; references to entities never declared, and empty CDATA sections, are outside.')
p('C26', 'XSLT results are written as the tree they were built as',
  'Whatever sequence of elements, attributes, namespaces, text, comments and processing instructions is built, in whatever pieces and with whatever prefixes, a stream sink writes well-formed XML that reads back as exactly that result tree: every name in its namespace, the chosen elements as CDATA, declaration and document type as configured, and with indentation nothing but strippable whitespace added; as text, exactly the text. A DOM sink builds the same tree. What cannot be written (an attribute after content, anything but text in a value) is left out with a warning, and a sink used again starts clean, however the last use ended.',
  'inputs histories', 'every short sequence of construction calls with symbolic prefixes, namespaces and contents, under every output setting', 'The tests compare the results of fixed stylesheets, mostly as trees rather than as text.',
  ['include/XSLT/impl/xslt_output.hpp', 'include/XSLT/impl/xslt_sink.hpp', 'include/XSLT/impl/xslt_namespace_stack.hpp'],
  [('Output', 'include/XSLT/impl/xslt_output.hpp')], 'Contents are assumed to be XML characters, without carriage returns where they cannot be escaped; disable-output-escaping and xml:space are outside.')
p('C27', 'A compiled stylesheet does what XSLT 1.0 says its instructions do',
  "For every combination of instructions, patterns and values, running a stylesheet gives the result tree XSLT 1.0 prescribes: each node is handled by the matching rule of highest import precedence, then priority, then place; every expression sees the right current node, position and size, and the variables and parameters in scope at that point; nodes are visited in document order or sorted stably by their keys; keys find exactly the nodes they index; copies are complete, namespaces included; elements and attributes made come in the namespaces their names, declarations and namespace attributes give. Runs are independent: the same stylesheet gives the same result however an earlier run ended, errors (circular definitions included) end the run with an exception and not a crash, and nothing is leaked.",
  'inputs histories faults', 'every nesting of instructions to a bound, pairs of rules, sort keys, keyed trees and shadowed variables with symbolic values, failures at symbolic times', 'The tests run fixed stylesheets once each over fixed documents.',
  ['include/XSLT/impl/xslt_compiled_stylesheet.hpp', 'include/XSLT/impl/xslt_stylesheet_compiler.hpp', 'include/XSLT/impl/xslt_variable_stack.hpp', 'include/XSLT/impl/xslt_sort.hpp', 'include/XSLT/impl/xslt_key.hpp', 'include/XSLT/impl/xslt_copy.hpp'],
  [('CompiledStylesheet', 'include/XSLT/impl/xslt_compiled_stylesheet.hpp'), ('VariableClosure', 'include/XSLT/impl/xslt_execution_context.hpp'), ('Sort', 'include/XSLT/impl/xslt_sort.hpp')], 'Attribute sets, whitespace stripping, xsl:number, decimal formats, fallback, document() of node-sets and language- or case-dependent sorting are outside; stylesheets come from a stand-in reader.')
p('C28', 'A tree walker shows exactly the nodes its flags and filter accept',
  "For every tree, root, set of kinds to show and filter, a TreeWalker moves through the logical tree those give: rejected nodes are gone with everything in them, skipped and unshown ones are replaced by their children. From any current node in that view, parent, first and last child, next and previous sibling, next and previous node each go to the node which has that place there, or stay put and give nothing where there is none; no move leaves the root. The filter is asked only about nodes of the kinds shown, and an exception out of it is passed on with the walker where it was. A walker goes on working as the tree changes around it, refuses to be without a root or current node, and leaves nothing behind.",
  'inputs histories faults', 'every tree to a bound with a symbolic verdict on every node and symbolic flags for every kind; sequences of moves with nodes moved in between; a filter failing at any call', 'The tests walk one fixed tree with two filters.',
  ['include/DOM/Traversal/TreeWalkerImpl.hpp', 'include/DOM/Traversal/TreeWalker.hpp', 'include/DOM/Traversal/DocumentTraversalImpl.hpp'],
  [('TreeWalkerImpl', 'include/DOM/Traversal/TreeWalkerImpl.hpp'), ('createTreeWalker', 'include/DOM/Traversal/DocumentTraversalImpl.hpp')], 'Moves from a current node inside a rejected node, or set outside the root, are only required not to fail; node iterators are not implemented; the contents of entities are outside.')
p('C29', 'Whatever Taggle reads, it reports a well-formed document with all the text',
  "For every input and every setting of its features, parsing with Taggle ends and reports a document a SAX application can take for XML: the locator, then the start and end of the document; one root; elements which nest, with well-formed names, each attribute once and every prefix declared; comments, instructions and text of XML characters which could be written as such; at most one document type, before the root, as it was written. No text is lost or reordered, whatever tags surround it, and every element started appears in its place. What is well-formed is reported as written, with character references anywhere replaced by the characters, in UTF-8, and malformed ones left alone. A handler's exception is passed on, the parser can then be used again as if new, and nothing leaks.",
  'inputs histories faults', 'symbolic characters in every context the scanner has; every sequence of tags to a bound; symbolic contents; a handler failing at each call', 'The test parses one fixed snippet.',
  ['include/Taggle/impl/Parser.hpp', 'include/Taggle/impl/html/HTMLScanner.hpp', 'include/Taggle/impl/SchemaImpl.hpp', 'include/Taggle/impl/Element.hpp', 'include/Taggle/impl/ElementType.hpp'],
  [('Taggle', 'include/Taggle/impl/Parser.hpp'), ('HTMLScanner', 'include/Taggle/impl/html/HTMLScanner.hpp'), ('SchemaImpl', 'include/Taggle/impl/SchemaImpl.hpp')], 'Empty attribute values (dropped by design), references to U+0080 to U+009F, names outside ASCII, elements prefixed xmlns, and nesting deep enough to exhaust the stack are outside.')
