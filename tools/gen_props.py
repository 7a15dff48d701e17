"""Writes /verif/properties.jsonl from the table below."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    if observe:
        a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})


prop('C01', 'The low-level reader splits any byte string exactly as BER defines',
     'For every byte string, reading the first value either fails with ValueError or returns its class, method, tag, header, contents and end-of-contents marker, where these are exactly what X.690 assigns to those octets (short and long tags, short, long and indefinite lengths, nested indefinite lengths) and header + contents + marker is a prefix of the input. '
     'Reading fails exactly when the input is truncated, uses a non-minimal tag form, uses an indefinite length on a primitive value, or nests indefinite lengths beyond the documented limit. '
     'Peeking reports exactly the length of that prefix, and strict reading additionally fails exactly when octets follow it.',
     ['inputs'], 'all byte strings: well-formed BER, truncations and mutations of it, and random octets',
     'The tests parse a dozen hand-written headers; the guarantee ranges over every header form, nesting and truncation point.',
     ['asn1crypto/parser.py', 'asn1crypto/util.py'],
     [('recursive header scan', 'parser._parse'), ('length from octets', 'util.int_from_bytes')],
     observe=['parser.parse', 'parser.peek'])

prop('C02', 'The low-level writer emits minimal headers and is inverted by the reader',
     'For every class, method, tag number and contents, the emitted value is the unique DER encoding: minimal identifier octets, minimal definite length octets, then the contents unchanged; reading it back returns the same class, method, tag and contents. '
     'Arguments of a wrong type are rejected with TypeError and out-of-range numbers with ValueError.',
     ['inputs'], 'all classes 0-3, methods 0-1, tags from 0 to beyond 2^64, contents lengths across every length-form boundary',
     'The tests emit a handful of values; tag and length boundaries (30/31, 127/128, 255/256, 65535/65536, 2^24) and large tags are unbounded.',
     ['asn1crypto/parser.py'], [('header construction', 'parser._dump_header')], observe=['parser.emit'])

prop('C03', 'No input octets can crash or hang the decoder',
     'For every byte string and every public type, decoding it, reading its native value in full and re-encoding it either succeeds or fails with ValueError or TypeError; no other exception escapes and the work always terminates. '
     'A decode that fails leaves the library able to decode other values correctly, and a read that is refused is refused again when it is repeated: no partial value is ever remembered and handed out.',
     ['inputs', 'fault_sequences'], 'every public structure type x (valid corpus encodings, structure-aware mutations of them, generated encodings, and random octets)',
     'Tests only feed valid fixtures and about ten malformed strings, none of which reach the lazily parsed inner values.',
     ['asn1crypto/core.py', 'asn1crypto/parser.py', 'asn1crypto/x509.py', 'asn1crypto/cms.py', 'asn1crypto/keys.py', 'asn1crypto/algos.py'],
     [('value builder and error annotation', 'core._build, core._parse_build'), ('lazy child parsing', 'core.Sequence._parse_children, core.SequenceOf._parse_children')],
     observe=['load() and native of every public class'])

prop('C04', 'Scalar values encode to DER and decode back to the same native value',
     'For every integer, boolean, null, octet string, enumerated value and integer-valued octet or bit string within its declared width, the encoding is the unique DER encoding of that value, and decoding that encoding gives back an equal native value. '
     'Named integers and enumerations translate in both directions exactly as their declared name tables say.',
     ['inputs'], 'all representable native values of the scalar types, including integers of thousands of bits, sign boundaries, and all declared names',
     'The tests sample about ten small integers; boundaries recur at every multiple of eight bits and for negative powers of two.',
     ['asn1crypto/core.py', 'asn1crypto/util.py'],
     [('integer codec', 'core.Integer.set/native, util.int_to_bytes'), ('integer octet strings', 'core.IntegerOctetString, core.IntegerBitString')],
     observe=['dump(), native, contents'])

prop('C05', 'A loaded value that is not modified re-encodes to the octets it came from',
     'For every value the library can decode, whether DER or non-canonical BER (nested indefinite lengths, long-form lengths, nested constructed strings, explicit default values, unordered sets, unusual time or boolean encodings), encoding it without modifying it returns exactly the octets it was decoded from, so signatures over it remain valid; only a value whose own outermost encoding is indefinite-length or segmented may instead be re-encoded to its DER form (as documented), one nested inside a definite-length value is preserved. '
     'This holds no matter which reads (native values, children, iteration, lengths, accessors, representations, pickling) were done in between and in which order, and equally for every value nested inside it.',
     ['inputs', 'histories'], 'all decodable values of universal and predefined types x all sequences of read-only operations',
     'Fixtures are nearly all DER and the tests read one accessor at a time; laziness means each order of reads takes a different path.',
     ['asn1crypto/core.py', 'asn1crypto/parser.py'],
     [('cached header/contents/trailer', 'core.Asn1Value.dump, core.Sequence.dump, core.Choice.dump'), ('lazy children', 'core.Sequence._lazy_child, core.Sequence._is_mutated')],
     state=[('contents cache', 'the original octets, kept while no child is modified')], observe=['dump(), contents'])

prop('C06', 'A forced re-encode yields canonical DER with the same native value',
     'For every value the library decodes, forcing a re-encode yields the DER encoding of the same abstract value: definite minimal lengths, primitive strings, default values omitted, and set elements in canonical order, without changing the native value. '
     'Forcing a re-encode of something already in DER returns identical octets, and forcing twice returns the same octets as forcing once. Content that no declaration types (untyped fields, undeclared records) is kept as it is.',
     ['inputs'], 'all decodable BER encodings of values built from universal types, tagging and user schemas; all DER encodings of predefined types',
     'Only a few fixtures are force-dumped; the property ranges over all BER spellings of all nested values.',
     ['asn1crypto/core.py'],
     [('force paths', 'core.*.dump(force=True), core.Constructable, core.Sequence._set_contents, core.SetOf._set_contents')],
     observe=['dump(force=True)'])

prop('C07', 'All BER spellings of a value decode to the same native value',
     'Re-encoding any value with a different legal BER spelling (indefinite length at any level within the nesting limit, redundant long-form lengths, strings split into constructed segments, sets in another order, explicitly encoded default values, any non-zero octet for true) decodes to the same native value as its DER encoding. '
     'The same holds when the respelled value sits under implicit or explicit tags, inside a choice, an untyped field, or a list.',
     ['inputs'], 'all values of constructed schemas and string types x all combinations of BER liberties at every level',
     'The tests hold five indefinite-length samples; spellings multiply with nesting and tagging.',
     ['asn1crypto/core.py', 'asn1crypto/parser.py'],
     [('constructed string merging', 'core.Constructable._merge_chunks'), ('indefinite parsing', 'parser._parse'), ('build', 'core._build')],
     observe=['load().native'])

prop('C08', 'Constructed types encode and decode exactly as their declared schema says',
     'For every user-declared record, set, list or choice type (with any mix of optional and default fields, implicit and explicit tags of every class and number, nested types and schema-less fields), building it from native values yields the DER encoding X.690 prescribes for that schema: fields in order, absent optionals and default-valued fields omitted, set members and set-of elements in canonical order. '
     'Decoding that encoding yields the same native value with declared names in declared order, absent optionals as null and absent defaults as their default; an encoding missing a required field or holding an undeclared one is rejected.',
     ['programs', 'inputs'], 'all schema declarations expressible with the field options x all native values conforming to them',
     'The tests declare about thirty fixed schemas; matching optional fields and ordering sets depends on every combination of tags.',
     ['asn1crypto/core.py'],
     [('field matching', 'core.Sequence._setup, _determine_spec, _parse_children'), ('set matching and ordering', 'core.Set._parse_children, core.Set._set_contents, core.SetOf'), ('default omission', 'core.Sequence._set_contents')],
     observe=['constructor, dump(), load(), native'])

prop('C09', 'Structures stay consistent with a plain model across any history of edits',
     'After any sequence of item assignments, deletions, appends, insertions, reads, encodes and re-loads on a record or list, at any nesting depth of directly nested records and lists, every read returns what a plain dictionary or list subjected to the same edits would hold. '
     'Encoding at any point yields the DER encoding of that model state, so that an edit made after an earlier encode or read is never lost and an edit that raises leaves the previous content in place.',
     ['histories'], 'all sequences of edit, read, encode and reload operations on records, sets, lists and nested combinations, starting from built or loaded values',
     'Tests perform one or two edits per object; caching and mutation tracking depends on the interleaving of reads, encodes and edits.',
     ['asn1crypto/core.py'],
     [('mutation tracking', 'core.Sequence._is_mutated, _mutated'), ('child caches', 'core.Sequence.__setitem__/__delitem__, core.SequenceOf.append/insert/__setitem__')],
     state=[('children/_mutated/_native', 'lazily filled caches that every edit must invalidate')], observe=['native, dump(), len, iteration, indexing'])

prop('C10', 'Tagging, retagging, casting and choices change the header and nothing else',
     'Applying an implicit tag or explicit tags (one or several), retagging, untagging, or casting to a compatible type changes only the identifier and wrapper octets as X.690 prescribes; the contents, the native value and the original object are unaffected, and undoing the operation restores the original encoding. '
     'A value carrying a tag other than the one required is rejected, a choice selects precisely the alternative whose tag is present and keeps that alternative\'s own encoding, and an untyped value keeps and re-emits the exact octets it holds whichever type it is later parsed as.',
     ['inputs', 'configurations'], 'all base values x all chains of explicit tags and implicit tag of any class and number x choices with any alternatives',
     'Tests use tags 0-3 in the context class, mostly; combinations of nesting, class and high tag numbers are unbounded.',
     ['asn1crypto/core.py'],
     [('tag normalisation', 'core._fix_tagging, core.Asn1Value.__init__'), ('retag/untag', 'core.Asn1Value.retag, untag'), ('choice', 'core.Choice'), ('any', 'core.Any'), ('cast', 'core.Castable.cast')],
     observe=['dump(), load(), native, chosen, name'])

prop('C11', 'Copies are equal to and independent of the original',
     'Copying or pickling any value yields one with the same type, native value, tagging and encoding (a part pickled on its own may forget what only its context declared); editing the copy never changes the original and editing the original never changes the copy, at any depth, whichever parts had been read, parsed or modified before copying.',
     ['histories', 'inputs'], 'all values of universal and predefined types x read/edit histories before and after the copy',
     'The tests copy three hand-written structures; aliasing appears only with specific cached sub-objects.',
     ['asn1crypto/core.py'],
     [('deep copy', 'core.Asn1Value.copy/_copy and the overrides in each subclass'), ('debug/pickle', '__copy__, __deepcopy__, __reduce__')],
     observe=['copy(), copy.deepcopy, pickle, dump(), native'])

prop('C12', 'Object identifiers convert exactly between dotted, named and encoded forms',
     'For every valid object identifier (first arc 0-2, second arc below 40 unless the first is 2, arcs of any size) the encoding is the X.690 encoding of its arcs, and decoding that encoding returns the same dotted form; names and dotted forms translate both ways exactly as declared, and unknown identifiers keep their dotted form. '
     'Reassigning an identifier object changes all of its views (dotted form, native value, encoding) together.',
     ['inputs', 'histories'], 'all arc sequences with arcs up to hundreds of bits; all identifiers in the declared tables; reassignment histories',
     'Tests convert about a dozen identifiers; base-128 boundaries and the joint first arc have unbounded cases.',
     ['asn1crypto/core.py'],
     [('arc codec', 'core.ObjectIdentifier.set/dotted'), ('name maps', 'core.ObjectIdentifier.map/unmap/native')],
     observe=['dotted, native, dump(), map(), unmap()'])

prop('C13', 'Bit strings keep every bit and behave as the set or tuple they denote',
     'For every sequence of bits the encoding is DER (correct unused-bit count, zero padding, trailing zero bits removed for named bit lists) and decodes to the same bits; the tuple, set, octet and integer views agree with those bits. '
     'Reading and assigning single bits by index or name acts exactly as on the denoted bits, whatever the length and including bits that have no declared name.',
     ['inputs', 'histories'], 'all bit sequences up to several hundred bits, with and without name tables, built, loaded or edited bit by bit',
     'Tests use a few strings of at most 24 bits; the unused-bit and name-table cases depend on length modulo eight.',
     ['asn1crypto/core.py'],
     [('bit list codec', 'core.BitString.set/native/__getitem__/__setitem__, core.OctetBitString, core.IntegerBitString'), ('unused bits', 'core.BitString._as_chunk')],
     observe=['native, dump(), indexing, unused bits'])

prop('C14', 'Character strings encode in their declared character set and decode back',
     'For every text representable in the character set of a string type, the encoding is the octets that character set prescribes and decoding gives back the same text, including after the value is reassigned or re-encoded; text that is not representable is rejected rather than altered. '
     'The Teletex codec maps its defined octets one-to-one to characters and rejects the undefined ones; the Teletex alternative of X.509 directory strings is written in it, but read as Windows-1252 (in T.61 inside strict_teletex()).',
     ['inputs'], 'all texts over each string type\'s repertoire (UTF-8, UCS-2, UCS-4, ASCII, Latin-1, Teletex), all single octets and octet strings for decoding',
     'Only a few words are encoded in the tests; the Teletex table and surrogate and boundary code points are never enumerated.',
     ['asn1crypto/core.py', 'asn1crypto/_teletex_codec.py'],
     [('string codec', 'core.AbstractString.set/__unicode__'), ('teletex tables', '_teletex_codec.py')],
     observe=['native, contents, dump()'])

prop('C15', 'Time values keep their instant through every conversion',
     'For every date and time with any legal zone offset and fraction, UTCTime and GeneralizedTime encode to canonical DER (UTC, seconds present, no trailing fraction zeros) and decode to the same instant; all BER spellings (missing seconds, offsets, fractional hours, minutes or seconds) decode to the instant they denote. '
     'UTCTime holds whole seconds, its two-digit years map to 1950-2049 and other years are refused; year 0 is supported, times without a zone are refused when set, and impossible dates or malformed strings are rejected with ValueError.',
     ['inputs'], 'all instants of years 0-9999 with offsets up to a day and microsecond fractions; all syntactic forms; malformed variants',
     'The tests enumerate around sixty strings; calendar and offset arithmetic has boundary cases at each unit.',
     ['asn1crypto/core.py', 'asn1crypto/util.py', 'asn1crypto/x509.py'],
     [('time parsing', 'core.AbstractTime, core.UTCTime, core.GeneralizedTime'), ('zones', 'util.create_timezone')],
     observe=['native, dump(), set()'])

prop('C16', 'Integer, zone and year-zero date helpers match exact arithmetic',
     'Converting integers to octets and back is exact two\'s-complement or unsigned big-endian arithmetic at every width, minimal when no width is requested and failing when the value does not fit. '
     'Year-zero dates and datetimes compare, format, subtract, shift and convert between zones exactly as proleptic Gregorian dates do, consistently with ordinary dates and datetimes of other years.',
     ['inputs'], 'integers up to thousands of bits, both signs, all widths; all year-0 dates and times x all format directives x offsets and time deltas',
     'Tests check about a hundred hand-picked values and only a few formats.',
     ['asn1crypto/util.py', 'asn1crypto/_int.py'],
     [('integer conversion', 'util.int_to_bytes, util.int_from_bytes'), ('extended dates', 'util.extended_date, util.extended_datetime')],
     observe=['util functions and classes'])

prop('C17', 'PEM armour and unarmour are exact inverses and detection is reliable',
     'For every octet string, type name (printable ASCII label) and header set, unarmouring an armoured text returns the same type name, headers and octets, whatever text surrounds the block and whatever the line endings, spacing and number of blocks; lines are at most 64 characters of base64. '
     'Text is detected as PEM exactly when it contains a begin marker, several blocks are returned in order, and input without a complete block is rejected with ValueError.',
     ['inputs'], 'all octet strings, type names, RFC 1421 headers, surroundings, line endings, multi-block files and damaged blocks',
     'Tests use eleven fixture files with one block each.',
     ['asn1crypto/pem.py'], [('armour', 'pem.armor'), ('state machine', 'pem._unarmor'), ('detect', 'pem.detect')],
     observe=['pem.armor, unarmor, detect'])

prop('C18', 'International URIs survive conversion to ASCII and back',
     'For every URI with international host, path, query or fragment characters, conversion to the encoded form yields pure ASCII (IDNA host, percent-encoded UTF-8 elsewhere) that denotes the same resource, and converting back yields the original characters; already-encoded reserved characters and delimiters keep their meaning, and ports are kept except that normalising drops the default one. '
     'Converting an encoded URI to its readable form and back again is stable, and undecodable percent escapes are kept rather than corrupted.',
     ['inputs'], 'all URIs over scheme, user info, IDN or IP host, port, path, query and fragment with Unicode, escapes (valid and invalid UTF-8) and reserved characters',
     'The tests list about a dozen URIs.',
     ['asn1crypto/_iri.py', 'asn1crypto/x509.py'], [('conversion', '_iri.iri_to_uri, _iri.uri_to_iri'), ('escape handling', '_iri._urlquote, _iri._urlunquote')],
     observe=['x509.URI set/native/dump, general names'])

prop('C19', 'IP addresses and networks convert exactly between text and octets',
     'For every IPv4 or IPv6 address, with or without a prefix length, setting it from any legal text form stores the network-order octets (followed by the mask), and decoding those octets gives the canonical text of the same address and prefix; malformed addresses and out-of-range prefixes are rejected. '
     'The bundled portable address routines agree with the operating system on every address, in both directions.',
     ['inputs'], 'all IPv4/IPv6 addresses in every textual form (compressed, embedded IPv4, leading zeros, case) and all prefix lengths; malformed texts',
     'The tests check about twenty addresses; zero-run compression has many boundary cases.',
     ['asn1crypto/_inet.py', 'asn1crypto/x509.py'], [('portable inet', '_inet.inet_ntop, _inet.inet_pton'), ('address with mask', 'x509.IPAddress')],
     observe=['x509.IPAddress, _inet'])

prop('C20', 'Distinguished names compare, hash and build by the RFC 5280 rules',
     'Two names are equal exactly when they have the same sequence of relative names with the same attribute types and values that match after RFC 4518 preparation (case folding, space compression, character mapping), independent of string type and of order inside a multi-valued relative name; equality is an equivalence relation and equal names have equal hashes; comparing a value that RFC 4518 prohibits fails with ValueError. '
     'Building a name from a dictionary stores exactly those attributes, in order, with the required string types, and its native and readable forms show those same values.',
     ['inputs'], 'all names over the attribute types, string types, case/space/width variants and multi-valued relative names',
     'The tests compare about a dozen fixed pairs.',
     ['asn1crypto/x509.py'], [('comparison', 'x509.Name.__eq__, RelativeDistinguishedName, NameTypeAndValue.__eq__'), ('preparation', 'x509.NameTypeAndValue._ldap_string_prep'), ('building', 'x509.Name.build'), ('hash', 'x509.Name.hashable')],
     observe=['==, hashable, native, human_friendly, sha1/sha256'])

prop('C21', 'DNS, e-mail and URI names compare and convert by their own case rules',
     'DNS names, e-mail addresses and URIs set from Unicode text encode to the ASCII form the internet standards prescribe and read back as the same text. '
     'Two of them are equal exactly when the standards say so: host parts compare case-insensitively and across their Unicode and ASCII forms, e-mail mailboxes compare case-sensitively, default ports and (where no query or fragment follows) empty paths are normalised; equality is an equivalence relation and unequal values never compare equal.',
     ['inputs'], 'all host names with ASCII or international labels, mailboxes, and URIs, with case, encoding and port variants',
     'The tests compare about thirty fixed pairs.',
     ['asn1crypto/x509.py', 'asn1crypto/_iri.py'], [('types', 'x509.DNSName, x509.EmailAddress, x509.URI, x509.GeneralName')],
     observe=['==, native, dump()'])

prop('C22', 'Certificate accessors report exactly what the certificate encodes',
     'For every certificate, each accessor (names, key, serial, validity, every standard extension value, critical extension set, key identifiers, distribution points, OCSP URLs, digests, identity strings) returns exactly the corresponding part of the encoding, and null or an empty list precisely when that part is absent, in whatever order the accessors are called. '
     'The CA flag, path-length limit and self-issued and self-signed classifications follow from the encoded names, key identifiers and constraints alone. '
     'An accessor that is refused because the part it reports is damaged is refused every time it is asked.',
     ['inputs', 'histories'], 'all certificates built from any subset and order of extensions, any names and validity, x all orders of accessor calls',
     'The tests tabulate accessors for a fixed set of about twenty fixture certificates.',
     ['asn1crypto/x509.py'], [('extension scan', 'x509.Certificate._set_extensions'), ('accessors', 'x509.Certificate properties')],
     state=[('cached extension values', 'filled on first access')], observe=['Certificate properties'])

prop('C23', 'A certificate is accepted for exactly the host names and addresses it lists',
     'Checking a host name or address against a certificate accepts it exactly when it matches one of the listed DNS names or IP addresses: case-insensitive label by label, a single wildcard standing for the leftmost label or a part of it only, never for several labels, inside an A-label or for a part of one, addresses compared as addresses. '
     'The subject common name is consulted only when the certificate has no subject alternative names, and any input text gives an answer rather than an error.',
     ['inputs'], 'all certificates with any mix of DNS, IP and common-name entries (wildcards, IDN) x all queried host names and addresses',
     'The tests check about twenty-five pairs.',
     ['asn1crypto/x509.py'], [('matching', 'x509.Certificate.is_valid_domain_ip, _is_wildcard_match, _is_wildcard_domain'), ('listed names', 'x509.Certificate.valid_domains, valid_ips')],
     observe=['is_valid_domain_ip, valid_domains, valid_ips'])

prop('C24', 'Predefined structures follow their published ASN.1 definitions',
     'Every predefined structure (X.509, CRL, OCSP, CSR, keys, algorithms, CMS, TSP, PKCS#12, PDF) encodes any conforming native value as its published definition prescribes (field order, tags, optionality, defaults, content types selected by identifier) and decodes it back to an equal native value. '
     'Every declared identifier, named bit, enumeration value and integer name maps to the number its standard assigns and back.',
     ['inputs', 'configurations'], 'all predefined types x conforming native values generated from their definitions; all table entries',
     'Fixtures exercise only the fields that happen to be present in them; many structures and most table entries have no test at all.',
     ['asn1crypto/x509.py', 'asn1crypto/cms.py', 'asn1crypto/keys.py', 'asn1crypto/algos.py', 'asn1crypto/crl.py', 'asn1crypto/ocsp.py', 'asn1crypto/csr.py', 'asn1crypto/tsp.py', 'asn1crypto/pkcs12.py', 'asn1crypto/pdf.py'],
     [('declarations', '_fields, _alternatives, _map, _oid_specs of every class'), ('identifier-driven types', 'core.Sequence._determine_spec, _spec_callbacks')],
     observe=['load(), native, dump() of every public class'])

prop('C25', 'Key containers preserve the key and report its true parameters',
     'Wrapping any RSA, DSA or EC (or Edwards/Montgomery) public or private key in a generic key container and unwrapping it returns the same key octets and parameters, and the container\'s algorithm, bit size, byte size, curve and digest helpers equal the values computed from the key\'s numbers. '
     'Elliptic-curve points convert between coordinate pairs and octets exactly for every coordinate at every curve width, and fixed-width private values keep their width.',
     ['inputs'], 'keys with arbitrary integers of any size, all named curves and specified curves, all coordinates including short and zero ones',
     'The tests use about a dozen fixture keys, whose numbers are never short or at a width boundary.',
     ['asn1crypto/keys.py', 'asn1crypto/core.py'], [('containers', 'keys.PrivateKeyInfo.wrap, keys.PublicKeyInfo.wrap'), ('points', 'keys._ECPoint'), ('sizes', 'keys.*.bit_size/byte_size, keys.NamedCurve.key_size')],
     observe=['keys classes'])

prop('C26', 'Algorithm identifiers report the parameters they encode',
     'For every algorithm identifier, the derived signature, digest, cipher, mode, key length, block size, initialisation vector, key-derivation and padding facts equal those its identifier and encoded (or defaulted) parameters denote, and asking for a fact the algorithm does not have fails with ValueError. '
     'Signature pairs convert exactly between the fixed-width concatenation and the encoded form for every pair of numbers.',
     ['inputs'], 'all signature, digest and encryption algorithm identifiers x all parameter values (present, absent, defaulted); all number pairs',
     'The tests look at about twenty algorithms from fixtures; most entries and parameter defaults are not reached.',
     ['asn1crypto/algos.py'], [('signature facts', 'algos.SignedDigestAlgorithm'), ('encryption facts', 'algos.EncryptionAlgorithm'), ('signature pairs', 'algos.DSASignature.from_p1363/to_p1363'), ('null parameters', 'algos._ForceNullParameters')],
     observe=['algos classes'])

prop('C27', 'CRL, OCSP and CSR accessors report exactly what the message encodes',
     'For every revocation list, revoked entry, OCSP request and response, and certification request, each accessor (critical extension set, every extension value, issuer name, digests, response data, time and status fields) returns exactly the corresponding part of the encoding, and null or empty precisely when that part is absent. '
     'The certificate issuer attributed to a revoked entry and the response status and inner response follow from the encoded fields alone. '
     'An accessor that is refused because the part it reports is damaged is refused every time it is asked.',
     ['inputs', 'histories'], 'all messages built from any subset and order of extensions x all orders of accessor calls',
     'The tests use a handful of fixtures in which most extensions are absent.',
     ['asn1crypto/crl.py', 'asn1crypto/ocsp.py', 'asn1crypto/csr.py'], [('extension scan', '_set_extensions in crl.py and ocsp.py')],
     observe=['properties of the message classes'])

prop('C28', 'Content-type-directed messages decode their content by its declared type',
     'In CMS, time-stamp, PKCS#12 and PDF-related messages, every field whose type depends on an identifier is decoded with the type the standards assign to that identifier, nested content can be read in both its raw and its parsed form, and building the same message from those native values re-creates the same octets. '
     'Content carried as octets and content carried directly (CMS versions) are both read correctly, and data for unknown identifiers is kept verbatim. The same holds for records a user declares with an identifier table (_oid_pair, _oid_specs) or a spec callback.',
     ['inputs', 'configurations'], 'all content types, attribute types, bag types and versions x generated contents, known and unknown identifiers',
     'Fixtures cover one message per content type, with one version and few attributes.',
     ['asn1crypto/cms.py', 'asn1crypto/tsp.py', 'asn1crypto/pkcs12.py', 'asn1crypto/pdf.py', 'asn1crypto/core.py'],
     [('identifier-driven specs', '_oid_pair/_oid_specs/_spec_callbacks'), ('parsable strings', 'core.ParsableOctetString')],
     observe=['cms, tsp, pkcs12 classes'])

prop('C29', 'Decoding consumes exactly one value, and strict mode forbids anything after it',
     'Loading a type from octets decodes exactly the first value: the result does not depend on the octets that follow it, and in strict mode loading fails with ValueError exactly when any follow. '
     'Octets left over inside a wrapper, record, list, choice or explicit tag are never silently dropped from the decoded value\'s re-encoding, concatenations split into their declared parts at exact value boundaries, and a type mismatch is reported as ValueError.',
     ['inputs'], 'all values of universal, tagged and predefined types x trailing octets at the top level and inside wrappers',
     'The tests check strictness on four types with one trailing string.',
     ['asn1crypto/core.py', 'asn1crypto/parser.py'], [('load', 'core.Asn1Value.load, core.Any, core.Choice.load, core.Concat.load'), ('strict parsing', 'core._parse_build')],
     observe=['load(strict=...)'])

prop('C30', 'Unrepresentable native values are refused and leave the object unchanged',
     'Constructing or assigning a native value that the type cannot represent (wrong Python type, unknown name, unknown field, invalid identifier, out-of-range number, naive time) raises TypeError or ValueError (KeyError, IndexError or OverflowError for a missing member or a number beyond its width), never produces an encoding of something else. '
     'After such a refusal the object still has its previous native value and encoding.',
     ['inputs', 'fault_sequences'], 'all types x all native values outside their domain, alone and after earlier valid assignments',
     'The tests check about twenty rejections, never the state afterwards.',
     ['asn1crypto/core.py', 'asn1crypto/x509.py', 'asn1crypto/keys.py'], [('set methods', 'core.*.set, core.Sequence.__setitem__, core.SequenceOf.append/insert'), ('constructors', 'core.*.__init__')],
     observe=['constructors, set(), item assignment'])

prop('C31', 'Values compare, convert and iterate as the Python values they stand for',
     'Two scalar values are equal exactly when their types have the same universal tag and their content octets (in primitive form) are the same, whatever tags, named values or subclass they carry; != negates ==, both are symmetric, a value equals its copies, and never anything that is not a scalar value. `in`, index and count on the items of a list follow that equality. '
     'str() of a string is its text and of an object identifier its dotted form, bytes() of an octet or bit string its octets, int() of an integer its number, bool() of a boolean its truth; len() and iteration of records give their declared fields and of lists their items; an absent optional field is false and empty. All of that holds for built, loaded (any BER spelling), tagged, copied and edited values, and none of it changes the value.',
     ['inputs', 'histories'], 'all pairs of scalar values x tagging x way of making them; all BER spellings and assignments of strings, octets, numbers and identifiers; all records and lists before and after edits',
     'The tests compare a handful of pairs of untagged values.',
     ['asn1crypto/core.py'], [('equality', 'core.Primitive.__eq__/__ne__, core.Void.__eq__'), ('membership', 'core.SequenceOf.__contains__'), ('conversions', 'core.*.__unicode__/__bytes__/__int__/__bool__'), ('walks', 'core.Sequence/SequenceOf.__len__/__iter__')],
     observe=['==, !=, in, str(), bytes(), int(), bool(), len(), iter()'])

prop('C32', 'Results do not depend on earlier use of the library or on other threads',
     'Building, decoding, reading, editing, re-encoding, copying and comparing values, and every public function, give the same results whatever types, values or functions were used before in the process and in which order (also from the very first use of a class, and when classes that extend one another with tables of their own are first used in any order), whichever modules of the library were imported (or reloaded in load_order()) and when, and whatever other threads do at the same time with values of their own. '
     'Excepted are the means that exist to change the process as a whole (registering a curve, reading Teletex strictly).',
     ['schedules', 'histories', 'inputs'], 'thread interleavings at every line of the library over two or three threads x work on fresh and predefined types; orders of import and first use of all modules and tables; families of derived classes',
     'The tests run one after the other in one thread of a process in which nearly everything was used already.',
     ['asn1crypto/core.py', 'asn1crypto/algos.py', 'asn1crypto/cms.py', 'asn1crypto/tsp.py', 'asn1crypto/pdf.py'],
     [('class set-up', 'core.Asn1Value.__init__, core.*._setup'), ('tables', 'core.ValueMap._setup, core.ObjectIdentifier.map/unmap, algos.AnyAlgorithmId, tsp, pdf')],
     observe=['native, dump(), map(), unmap(), accessors, from several threads and in fresh processes'])

prop('C33', 'The debug output shows every part of a value as it is encoded and changes nothing',
     'For every value that can be read, loaded with or without a type, built, edited or copied, .debug() prints a tree that names the class of every part that can be reached, fields, items, chosen alternatives and what octet strings hold, in order and indented under the part it is in, each with its header octets, class, method, tag and explicit tags, its contents, the name of its field and, when it has no parts, its native value; octets that hold no encoded value are shown as octets. '
     'Printing it does not fail and does not change the value, its encoding or what is printed the next time.',
     ['inputs', 'histories'], 'all declared and predefined types x values x tagging x DER and BER spellings, typed and untyped, after any reads',
     'The tests never call it.',
     ['asn1crypto/core.py'], [('printing', 'core._basic_debug, core.Asn1Value.debug, core.Sequence.debug, core.SequenceOf.debug')],
     observe=['the text printed by debug()'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
