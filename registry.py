"""Which harnesses decide which property, and within what bounds."""
PROPS = {}


def prop(pid, *harnesses, assumptions=()):
    PROPS[pid] = {'harnesses': list(harnesses), 'assumptions': list(assumptions)}


def H(name, file, bounds='', srcs=(), defs=(), libs=(), reach=(), quick=None, thorough=None, **kw):
    d = dict(name=name, file=file, bounds=bounds, srcs=srcs, defs=defs, libs=libs, reach=reach, quick=quick or {}, thorough=thorough or {})
    d.update(kw)
    return d


def T(budget=60, **params):
    return {'budget': budget, 'params': params}


prop('C02',
     H('base64', 'base64.cpp', 'every message of 0..N arbitrary bytes, output delivered in windows of 1..K-1 characters or at once',
       srcs=['src/convert/base64codecvt.cpp'], reach=['long'], quick=T(60, N=7, K=4), thorough=T(600, N=13, K=6)))

CVT = ['src/convert/utf8ucs2codecvt.cpp', 'src/convert/ucs2utf8codecvt.cpp', 'src/convert/utf16utf8codecvt.cpp', 'src/convert/impl/ucs2_utf8.cpp', 'src/convert/impl/codecvt_specialisations.cpp']
prop('C01',
     H('utf8', 'utf8.cpp', 'three facets; every string of 1..N BMP code units, output windows of 3 characters and exact fit; every byte string of 1..M bytes, output windows of 1 and M+1 characters',
       srcs=CVT, reach=['encode', 'wf', 'trunc'], quick=T(60, N=2, M=4), thorough=T(600, N=4, M=7)))
prop('C03',
     H('latin', 'latin.cpp', 'latin-1 text and UTF-16 units of 1..N, byte strings of 1..M, output windows minimal and exact fit, all facets',
       srcs=['src/convert/utf8iso88591codecvt.cpp', 'src/convert/iso88591utf8codecvt.cpp', 'src/convert/utf16beucs2codecvt.cpp', 'src/convert/utf16leucs2codecvt.cpp', 'src/convert/rot13codecvt.cpp',
             'src/convert/impl/iso88591_utf8.cpp', 'src/convert/impl/ucs2_utf16.cpp', 'src/convert/impl/codecvt_specialisations.cpp'],
       reach=['latin', 'qmark', 'utf16', 'rot13', 'default'], quick=T(60, N=4, M=4), thorough=T(600, N=8, M=6)))
prop('C04',
     H('streams', 'streams.cpp', 'strings of 1..N BMP characters, byte strings of 0..M bytes, chunk boundary (1024) inside or next to the symbolic characters, every flush pattern',
       srcs=CVT[:1] + CVT[3:] + ['src/convert/base64codecvt.cpp'], reach=['strings', 'anybytes', 'adaptor-in', 'adaptor-out', 'fresh', 'unused'],
       quick=T(60, N=2, M=3), thorough=T(600, N=4, M=6)))
prop('C05',
     H('chars', 'chars.cpp', 'every code point 0..10FFFF for each of the eleven classes; every ASCII string of 0..A characters and strings of 0..W characters over 20 representatives; UTF-8 names around an arbitrary sequence of 1..BYTES bytes; QName parsing of strings 0..N over {p,q,r,:,1,-} with symbolic declarations',
       srcs=['src/XML/XMLCharacterClasses.cpp'], reach=['classes', 'qname', 'parsed', 'refused', 'utf8'], quick=T(240, A=3, W=2, N=4, BYTES=3), thorough=T(800, A=5, W=3, N=6, BYTES=4, CONTEXTS=3)))
prop('C06',
     H('escape', 'escape.cpp', 'every string of 0..N XML characters escaped as text and as attribute value; every string of 0..M bytes normalised',
       srcs=['src/XML/XMLCharacterClasses.cpp'], reach=['text', 'attribute', 'whitespace'], quick=T(60, N=4, M=5), thorough=T(600, N=6, M=8)))
prop('C07',
     H('uri', 'uri.cpp', 'scheme none/http/file/another, symbolic host and port characters, paths of 0..N (parse), base paths of 0..B and reference paths of 0..R characters over {/ . a b :}; arbitrary strings of 0..Z bytes resolved with 0..Y',
       srcs=['src/io/uri.cpp'], reach=['parsed', 'absolute', 'merged', 'anything'], quick=T(250, N=4, B=3, R=4, Z=4, Y=2), thorough=T(800, N=6, B=5, R=5, Z=6, Y=3)))
prop('C08',
     H('nssupport', 'nssupport.cpp', 'every history of 0..N push, pop, declare, reset operations with symbolic prefixes and URIs, then every query with a symbolic prefix and URI',
       srcs=['src/XML/XMLCharacterClasses.cpp'], reach=['queried', 'popped', 'redeclared'], quick=T(250, N=4), thorough=T(800, N=6)))
prop('C09',
     H('attributes', 'attributes.cpp', 'S of the initial lengths 0,2,5,1,3,4, every history of 0..N operations with symbolic names and values, then every lookup with symbolic names',
       reach=['replaced', 'refused', 'self'], quick=T(250, S=3, N=2), thorough=T(800, S=6, N=3)))
prop('C10',
     H('writer', 'writer.cpp', 'every sequence of 0..N content events under a root, any one of them (or the document type) carrying up to 3 arbitrary XML characters, with and without indentation and encoding, every kind of declaration',
       reach=['exact', 'indented', 'doctype'], quick=T(250, N=2), thorough=T(800, N=3)))
prop('C11',
     H('filters', 'filters.cpp', 'every kind of event through every filter with symbolic contents; coalescing over C events of 12 kinds; namespace and base tracking over T and B events; text of up to W and P arbitrary bytes for stripping and PYX',
       srcs=['src/XML/XMLCharacterClasses.cpp', 'src/io/uri.cpp'], reach=['pass', 'coalesced', 'text only', 'stripped', 'tracked', 'based', 'located', 'pyx'], quick=T(250, C=4, O=2, W=4, T=4, B=4, P=4), thorough=T(800, C=5, O=3, W=5, T=5, B=5, P=5)))
prop('C13',
     H('inputsource', 'inputsource.cpp', 'every history of 0..N copy, assign, own, borrow, release and resolve operations on three sources',
       srcs=['src/SAX/helpers/InputSourceResolver.cpp', 'src/io/uri.cpp'], reach=['self', 'done'], quick=T(250, N=3), thorough=T(800, N=4)))
prop('C12',
     H('expat', 'expat.cpp', 'sequences of 1+N start/end/character callbacks with up to A attributes (declarations, prefixed, look-alikes) and symbolic prefixes and values in each namespace mode; every declaration kind and content models of depth 2; inputs around the 10240 byte buffer with a parse, allocation, stream or handler failure at any point; external entities resolved three ways',
       srcs=['src/SAX/helpers/InputSourceResolver.cpp', 'src/io/uri.cpp', 'src/XML/XMLCharacterClasses.cpp'],
       reach=['elements', 'model', 'declarations', 'delivered', 'fault', 'stream', 'thrown', 'abandoned', 'resolved', 'skipped', 'nested', 'unwound'], quick=T(250, N=2, A=2, G=1), thorough=T(800, N=3, A=2, G=2)))
DOM = ['src/XML/XMLCharacterClasses.cpp']
prop('C14',
     H('domtree', 'domtree.cpp', 'H shapes of a pool of fifteen nodes of every kind; one append, insert, replace or remove with any target, node and reference, then N-1 more', srcs=DOM,
       reach=['done', 'refused'], quick=T(250, H=4, N=2), thorough=T(800, H=4, N=3)))
prop('C15',
     H('domattr', 'domattr.cpp', 'with and without a document type declaring a default and an id; every history of N operations (by name, by namespace, by node, through the map, on values) with any of six attribute nodes, four names and three namespaces, values symbolic', srcs=DOM,
       reach=['done', 'replaced', 'missing', 'refused', 'default'], quick=T(250, N=2), thorough=T(800, N=3)))
prop('C16',
     H('domdata', 'domdata.cpp', 'data of 0..N arbitrary characters, every operation with offsets and counts from -1 to beyond the end and the extreme integers; splits with every kind of parent; normalisation of every sequence of 0..C children', srcs=DOM,
       reach=['data', 'refused', 'alone', 'split', 'normal'], quick=T(250, N=3, C=3), thorough=T(800, N=5, C=5)))
prop('C17',
     H('domcopy', 'domcopy.cpp', 'every node kind with attributes and children to depth D, cloned or imported shallow or deep; documents with and without a type; three tree shapes with symbolic names, every tag and namespace query, M changes', srcs=DOM,
       reach=['clone', 'import', 'document', 'lists'], quick=T(250, D=1, M=1), thorough=T(800, D=2, M=2)))
prop('C18',
     H('xpfunc', 'xpfunc.cpp', 'any doubles for floor, ceiling and arithmetic, every double of 16 significant bits and 44 extremes for round and substring positions; strings of 0..STR and 0..SUB characters; numeric strings of 0..NUM characters over {0 5 . - + e space newline}; numbers K/10^j and the extremes written; node-sets of 0..2 elements', srcs=DOM,
       reach=['rounded', 'substring', 'mod', 'arithmetic', 'numeric', 'not numeric', 'literal', 'written', 'strings', 'booleans', 'nodes'], quick=T(250, STR=4, SUB=4, NUM=3, K=40), thorough=T(800, STR=6, SUB=6, NUM=5, K=400)))
prop('C19',
     H('xpcompare', 'xpcompare.cpp', 'every pair of booleans, numbers (nine, with zeros, infinities and not-a-number), strings of 0..LEN characters over {0 1 - . space} and node-sets of 0..SET nodes, under the six operators', srcs=DOM,
       reach=['node-sets', 'values'], quick=T(250, LEN=2, SET=2), thorough=T(800, LEN=3, SET=3)))
prop('C20',
     H('xpaxes', 'xpaxes.cpp', 'trees of a root with attributes and KIDS children of nine kinds (text in one or two nodes, comments, processing instructions, elements two deep), in a document with prolog and document type, a fragment, or alone; names symbolic; every axis and nine node tests from every node; node-sets of five nodes from three trees in any order; three nested elements with namespace declarations', srcs=DOM,
       reach=['axes', 'order', 'namespaces', 'odd'], quick=T(250, KIDS=2, DEEP=1, NAMES=1), thorough=T(800, KIDS=3, DEEP=1, NAMES=3)))
prop('C21',
     H('xppaths', 'xppaths.cpp', 'paths of 1..STEPS steps over 12 axes and TESTS node tests with up to two of 15 predicates, relative, absolute and with //, abbreviated or not; filters of paths and variables with up to two predicates and a tail; unions; from every node of two trees with symbolic names, and a symbolic number in the predicates', srcs=DOM,
       reach=['step', 'path', 'filter', 'union'], quick=T(250, STEPS=2, TESTS=2, NAMES=1, FIRST=2, AXES=3, LATER=2, SECOND=2, MODES=4, FAXES=4, TAXES=1, UAXES=4, UPREDS=1), thorough=T(800, STEPS=3, TESTS=4, NAMES=2, FIRST=4, AXES=6, LATER=3, SECOND=4, MODES=8, FAXES=10, TAXES=6, UAXES=12, UPREDS=3)))
prop('C22',
     H('xpparse', 'xpparse.cpp', 'N symbolic characters from an alphabet of 22 in each of 16 contexts; TERMS terms with every choice of OPERATORS operators, parenthesised and negated in four ways, over symbolic operands; 28 expressions with symbolic whitespace in each gap; literals, numbers and names from three scripts, symbolic in each character', srcs=DOM,
       reach=['expression', 'refused', 'operators', 'whitespace', 'literal', 'number', 'names'], quick=T(250, N=3, DEEP=1, OPERATORS=11, DIGITS=1), thorough=T(800, N=4, DEEP=2, OPERATORS=13, DIGITS=2, TERMS=3, VALUES=4)))
prop('C23',
     H('xppattern', 'xppattern.cpp', 'patterns of 1..STEPS child and attribute steps over nine node tests with up to two of 15 predicates, from the root, from anywhere or relative, joined by / and //, written three ways, against every node of four trees; unions of patterns; N symbolic characters of 15 in each of nine contexts; templates of 0..PIECES pieces with symbolic characters, and M symbolic characters of six in three contexts', srcs=DOM,
       reach=['step', 'path', 'alternatives', 'pattern', 'refused', 'template', 'well formed', 'ill formed'], quick=T(250, STEPS=2, NAMES=1, MODES=2, SECOND=2, N=3, DEEP=2, M=4, PIECES=3), thorough=T(800, STEPS=3, NAMES=2, MODES=4, SECOND=4, N=4, DEEP=3, M=5, PIECES=4, ALTERNATIVES=2)))
prop('C24',
     H('domstream', 'domstream.cpp', 'chains of DEEP elements in no or two namespaces under three prefixes, with up to two attributes of nine kinds, streamed as a document, out of the middle of one, or detached; text, values, CDATA, comments, instructions and namespace names of 0..N arbitrary characters; ENDS characters of ] and >; trees of seven kinds of nodes in documents, fragments or alone', srcs=DOM,
       reach=['names', 'contents', 'ends', 'shapes'], quick=T(250, DEEP=2, MORE=0, N=3, ENDS=6, TALL=1), thorough=T(800, DEEP=3, MORE=1, N=4, ENDS=9, TALL=2)))
prop('C25',
     H('sax2dom', 'sax2dom.cpp', 'every sequence of N content events of 9 kinds with symbolic text in and out of namespace mode, with a warning, an error, a fatal error or a refused name at any point; D declarations of 10 kinds; ids on two elements; E references to internal, marked up, nested and external entities, repeatedly',
       srcs=['src/SAX/helpers/InputSourceResolver.cpp', 'src/io/uri.cpp', 'src/XML/XMLCharacterClasses.cpp'],
       reach=['mirrored', 'refused', 'declared', 'default', 'empty default', 'ids', 'entities'], quick=T(250, N=2, D=3, E=4), thorough=T(800, N=4, D=4, E=5)))
prop('C26',
     H('xsltout', 'xsltout.cpp', 'chains of elements in no or two namespaces under three prefixes with up to ATTS attributes and copied declarations; text, CDATA, comments, instructions and values of 0..N arbitrary characters in two pieces, ENDS characters of ] and > in three; every history of M of nine calls, misuse included, plain, indented and as text; every prolog; sinks left at any point and used again',
       srcs=DOM,
       reach=['names', 'contents', 'ends', 'history', 'prolog', 'again'], quick=T(250, ATTS=2, INNER=1, N=3, ENDS=6, M=3), thorough=T(800, ATTS=2, INNER=2, N=4, ENDS=9, M=4)))
prop('C27',
     H('xsltrun', 'xsltrun.cpp', 'stylesheets of instructions nested DEPTH deep (14 instructions, 6 selections) around probes of position, last, current and variables; sorting of SORTED items by two to four keys of either order and type with symbolic values; two or RULES template rules over eight patterns with priorities, modes, imports and includes; variables, parameters and with-params of four kinds shadowing in every scope; keys over four trees with symbolic values; copies of documents of every kind of node; elements and attributes named literally, by xsl:element and xsl:attribute in each of three scopes under six namespace aliases; ten failures in four places at symbolic times, four circular definitions; four histories repeated for leaks',
       srcs=['src/SAX/helpers/InputSourceResolver.cpp', 'src/io/uri.cpp', 'src/XML/XMLCharacterClasses.cpp'],
       reach=['programs', 'sorting', 'choosing', 'variables', 'keys', 'copies', 'failures', 'leaks', 'names', 'undeclared'], quick=T(250, DEPTH=2, KINDS=14, SELECTS=6, SORTED=3, RULES=2, KIDS=2, LEVELS=1), thorough=T(800, DEPTH=2, KINDS=14, SELECTS=6, SORTED=4, RULES=3, PATTERNS=8, KIDS=3, LEVELS=1)))
prop('C28',
     H('treewalk', 'treewalk.cpp', 'every tree of NODES, WALKED or ALL nodes under a root element in a document or fragment, with a symbolic verdict (accept, skip, reject) for each node and symbolic flags for each kind; every move from every node under each of three roots; every STEPS moves with any node moved between; filters failing at any call; roots, current nodes and walkers given up', srcs=DOM,
       reach=['moves', 'walks', 'everything', 'odd', 'references', 'leaks'], quick=T(250, NODES=3, WALKED=2, KINDS=2, STEPS=2, ALL=4, ODD=2), thorough=T(800, NODES=4, WALKED=3, KINDS=2, STEPS=2, ALL=5, ODD=3)))
prop('C29',
     H('taggle', 'taggle.cpp', 'SOUP symbolic characters out of 22 in each of 18 contexts, cut short there or not; TAGS start and end tags out of NAMES names with or without symbolic text after each (one fewer of both with each of four other settings of the features); CONTENTS constructs out of seventeen with a symbolic character in each (references to every character of U+0064 to U+00C7 but the Windows ones and sixteen others); every document type of three spellings of its keyword, four kinds of identifier and two of quotes and spaces with a symbolic character, early or late, once or twice; handlers failing at each of 25 callbacks over three documents and the parser used again; two histories repeated for leaks',
       srcs=['src/taggle/Schema.cpp', 'src/SAX/helpers/InputSourceResolver.cpp', 'src/io/uri.cpp', 'src/XML/XMLCharacterClasses.cpp'],
       reach=['soup', 'tags', 'contents', 'doctypes', 'again', 'leaks'], quick=T(250, SOUP=3, TAGS=3, NAMES=10, CONTENTS=1, OPTIONS=5), thorough=T(800, SOUP=4, TAGS=3, NAMES=20, CONTENTS=2, OPTIONS=5)))
