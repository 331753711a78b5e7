"""The property list: writes properties.jsonl and MANIFEST.json (python3-vt props.py)."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
MP, RQ, DS, UH, UF, FB, HT, EN, TX, ST, ML = (
    'request_parser/http/multipartparser.py', 'request_parser/http/request.py', 'request_parser/utils/datastructures.py',
    'request_parser/files/uploadhandler.py', 'request_parser/files/uploadedfile.py', 'request_parser/files/base.py',
    'request_parser/utils/http.py', 'request_parser/utils/encoding.py', 'request_parser/utils/text.py',
    'request_parser/conf/settings.py', 'request_parser/utils/module_loading.py')
I, H, C, F = 'inputs', 'histories', 'configurations', 'fault_sequences'

# id, title, statement, over, quantifier text, why tests cannot, files, mechanisms [(name, where)], observe at
P = []


def p(id, title, statement, over, text, why, files, mech, observe):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'observe_at': observe, 'hook_needed': None}})


p('C01', 'Push-back stream delivers exactly its bytes, in order',
  'Whatever sequence of sized reads, full reads, chunk reads and push-backs is made on the push-back stream, the bytes delivered are the source bytes in order, with pushed-back bytes delivered first and none lost, repeated or altered; a sized read is short only at the end; the reported position equals bytes delivered minus bytes pushed back.',
  [I, H], 'all byte contents, all ways the source cuts them into chunks, all operation sequences up to the bound',
  'The tests read a few concrete streams once; they cannot cover interleavings of reads and push-backs over every chunking.',
  [DS], [('LazyStream.read/next/unget', DS), ('ChunkIter.next', DS)], ['values returned by read(), next(), tell()'])
p('C02', 'A well-formed multipart body yields exactly its parts',
  'For a well-formed multipart/form-data body, the form fields and files reported are exactly the parts sent: same names, same multiplicity and order per name, byte-exact contents, same content types and parameters, and the end of the upload is signalled once.',
  [I, C], 'all part contents, boundaries, part sequences and read sizes within the bound',
  'The tests parse two fixed bodies; contents resembling delimiters, empty parts, repeated names and other read sizes are never tried.',
  [MP, DS], [('MultiPartParser.parse', MP), ('BoundaryIter.next', MP), ('parse_boundary_stream', MP)], ['POST and FILES of the parsed request, bytes handed to the upload handlers'])
p('C03', 'Multipart result does not depend on how the bytes arrive',
  'For any body bytes, well-formed or not, the outcome of multipart parsing (form fields, file contents, or the error raised) is the same whatever read sizes the handlers ask for and however few bytes each read of the underlying stream returns.',
  [I, C, H], 'all body bytes over delimiter-relevant alphabets, all read sizes and short-read patterns within the bound',
  'Tests deliver each body in one read; a delimiter cut between two reads is the classic bug and needs every cut position with every content.',
  [MP, DS], [('BoundaryIter rollback', MP), ('LazyStream.unget', DS)], ['POST and FILES, recorded handler data'])
p('C04', 'No part is hidden, split or invented',
  'Part splitting agrees with the delimiter rule: each part reported starts right after one delimiter and ends at the next; content of a part that is skipped (no name, no usable headers, headers too long, preamble, epilogue) is never reported as a field or a file, and never hides the part that follows.',
  [I], 'all bodies built from delimiter fragments, headers and arbitrary bytes within the bound',
  'Tests contain only well-formed parts; request-smuggling style malformed parts are not sampled.',
  [MP], [('parse_boundary_stream', MP), ('exhaust', MP), ('BoundaryIter._find_boundary', MP)], ['POST and FILES'])
p('C05', 'base64 parts decode to what was encoded',
  'A base64 file or field part is delivered as the decoded bytes whatever white space is interleaved and however the stream is cut; undecodable data gives the raw text for a field and a documented multipart error for a file; parsing always ends.',
  [I, C], 'all contents, white-space positions, truncations and read sizes within the bound',
  'No test sends a base64 part with white space, padding errors or small reads.',
  [MP], [('base64 branch of MultiPartParser.parse', MP)], ['POST and handler data'])
p('C06', 'Header parameters are parsed as written',
  'Parsing a parameterised header gives its lower-cased main value and every parameter under its lower-cased name with exactly the value sent: quoted values keep semicolons, equals signs, spaces and case, backslash escapes of quote and backslash are undone, and unquoted values are trimmed.',
  [I], 'all parameter values and names over the header alphabet within the bound',
  'The tests check a handful of literal headers.', [MP], [('parse_header', MP), ('_parse_header_params', MP)], ['result of parse_header, part names and file names'])
p('C07', 'Extended (RFC 2231/5987) parameters decode correctly',
  'A parameter in extended notation is reported under its plain name with the percent-decoded value in the declared charset; an unknown charset or a value not in extended form leaves the value as it was sent; parsing never fails on it.',
  [I], 'all charsets of a list incl. unknown ones, all percent-encoded byte values within the bound', 'The tests use one literal filename*.',
  [MP], [('parse_header has_encoding branch', MP)], ['result of parse_header, file names'])
p('C08', 'The field-count limit is exact',
  'A request whose form or query has more parameters than the configured maximum is refused with the documented error, one with at most that many is accepted with all of them, in multipart bodies, urlencoded bodies and query strings alike; without a limit nothing is refused.',
  [I, C], 'all limits and parameter counts around the limit, all contents within the bound', 'The tests never set the limit.',
  [MP, HT, RQ], [('num_post_keys check', MP), ('limited_parse_qsl', HT)], ['POST/GET or TooManyFieldsSent'])
p('C09', 'The in-memory data limit is exact and files are exempt',
  'Form data beyond the configured memory limit is refused with the documented error and never returned, in multipart fields, urlencoded and other bodies; data within the limit is accepted unchanged; file contents do not count; with no limit nothing is refused.',
  [I, C], 'all limits, sizes and contents around the limit within the bound', 'The tests never come near a limit.',
  [MP, RQ], [('num_bytes_read accounting', MP), ('HttpRequest.body', RQ)], ['POST, body() or RequestDataTooBig'])
p('C10', 'Upload handler protocol',
  'Upload handlers receive each file as one new-file call, its data in order with correct start offsets, and one completion with the total size; data passes to the next handler only as returned by the previous one; stop, skip and abort signals take effect as documented (after a connection reset nothing more is read), the memory handler takes an upload exactly if its content length is within the limit, and completion of the upload is signalled once per upload.',
  [I, C, H], 'all handler behaviours (keep, pass on, stop, skip, abort) at each call, all contents and read sizes within the bound',
  'The tests only use the default handler.', [MP, UH], [('handler loop of MultiPartParser.parse', MP), ('handle_file_complete', MP)], ['calls seen by recording handlers, FILES'])
p('C11', 'Uploaded files keep their content across the memory limit',
  'With the default upload handler every uploaded file is readable with exactly the bytes sent and the right size, whether it stays in memory or is moved to disk; no more than the configured amount of upload data is held in memory, uploads within it stay there; temporary files live in the configured directory and are gone once closed.',
  [I, C], 'all memory limits, file sizes, chunk splits and file sequences within the bound', 'The tests upload one file far below the limit.',
  [UH, UF], [('ConvenientFileUploadHandler.receive_data_chunk', UH), ('TemporaryUploadedFile', UF)], ['FILES, contents of the scratch upload directory'])
p('C12', 'Uploaded file names cannot carry a path',
  'The name of an uploaded file is the last component of what the client sent, for slash and backslash separators, entity-encoded or not; it never contains a path separator, is at most 255 characters, keeps its extension, and the temporary file is always created inside the upload directory.',
  [I], 'all names over the path-relevant alphabet within the bound, names around 255 characters', 'Tests use one plain file name.',
  [MP, UF, TX], [('IE_sanitize', MP), ('UploadedFile._set_name', UF), ('unescape_entities', TX)], ['name of the file, temporary file path'])
p('C13', 'Malformed multipart input ends, with documented errors only',
  'Whatever the body bytes, parsing a multipart body terminates and either succeeds or raises one of the documented request errors; the request stream is consumed.',
  [I], 'arbitrary bytes within the bound placed at every structural position of a body', 'Tests feed only valid bodies.',
  [MP, DS], [('MultiPartParser.parse', MP), ('LazyStream._update_unget_history', DS)], ['exception class'])
p('C14', 'Content-Type and Content-Length of multipart are validated',
  'Multipart parsing starts only for a multipart content type with a syntactically valid boundary and a non-negative content length; anything else is the documented multipart error, never another exception, and a missing, unparsable or zero length means an empty form.',
  [I], 'all content-type and content-length header values within the bound', 'Tests use valid headers only.',
  [MP], [('MultiPartParser.__init__', MP)], ['exception class, POST'])
p('C15', 'Header/body framing is exact and chunk-independent',
  'The header block ends at the first blank line and the body starts at the next byte, whatever the header read size and however the stream delivers its bytes; no byte is lost, duplicated or moved between header and body.',
  [I, C, H], 'all header and body bytes around the blank line, all header read sizes and short reads within the bound', 'Tests use one read size on files.',
  [RQ, DS], [('parse_request_header loop', RQ), ('LazyStream.unget', DS)], ['headers, body()'])
p('C16', 'The request line is reported as sent',
  'Method, protocol, scheme, authority, path and query string reported for a request are those of its request line, for origin-form and absolute-form targets; a request line that is not three tokens separated by single spaces is refused with the documented error.',
  [I], 'all request lines over the URI alphabet within the bound', 'Tests check four literal request lines.',
  [RQ, HT], [('parse_request_line', RQ), ('_urlparse/_urlsplit', HT)], ['method, scheme, path, META, protocol_info'])
p('C17', 'Request headers keep every value and cannot be changed',
  'Every header line (but Host, which is reported as host and port) is reported under its name with its trimmed value, repeated headers keep all values in order, a header line without a colon is refused, and the header dictionary reported cannot be modified.',
  [I, H], 'all header names and values within the bound, all mutators', 'Tests check literal headers and no mutation.',
  [RQ, DS], [('parse_request_headers', RQ), ('ImmutableMultiValueDict', DS)], ['META request headers'])
p('C18', 'Host and port validation is exact',
  'The host of a request is accepted exactly when it is a well-formed host or bracketed IPv6 address with an optional numeric port: the host is lower-cased with one trailing dot removed and the port given; anything else yields an empty host, so that no header value can smuggle other characters into the host.',
  [I], 'all host strings over the full byte alphabet up to the bound', 'Tests use three literal hosts.',
  [RQ], [('host_validation_re', RQ), ('split_domain_port', RQ)], ['get_host(), get_port()'])
p('C19', 'Content type and charset come from the Content-Type header',
  'The content type reported is the lower-cased media type, its charset parameter (any case, quoted or not) becomes the encoding of the request, and an unusable charset is refused with the documented error instead of failing later.',
  [I], 'all letter cases, quoting, parameter orders and charsets of a list within the bound', 'Tests cover two literal headers.',
  [RQ, MP], [('parse_request_header', RQ), ('parse_header', MP)], ['content_type, encoding'])
p('C20', 'body() returns the body, once and only the body',
  'The raw body is exactly the bytes after the header, every time it is asked for, also before parsing; after a form has been parsed from it, asking for it is the documented error; read failures of the source surface as the documented unreadable-post error.',
  [I, H, F], 'all bodies, call orders and failing reads within the bound', 'Tests read body once in one order.',
  [RQ], [('HttpRequest.body', RQ), ('HttpRequest.read', RQ)], ['body(), exception class'])
p('C21', 'Query strings and urlencoded bodies decode to their parameters',
  'GET and urlencoded POST hold exactly the name/value pairs sent, in order per name, with plus and percent escapes decoded in the charset of the request, blank values kept, and invalid escapes left as they are.',
  [I, C], 'all query strings over the urlencoding alphabet within the bound', 'Tests decode two literal queries.',
  [RQ, HT], [('limited_parse_qsl', HT), ('QueryDict.__init__', RQ)], ['GET, POST'])
p('C22', 'Reusing or sharing parser objects leaks nothing',
  'After a new stream is set, the result is that of a fresh request over that stream: nothing of the previous headers, body, form or charset remains; requests sharing a settings object do not influence each other; changing the encoding leaves the request usable.',
  [I, H], 'all pairs of requests of a family, all reuse histories within the bound', 'Tests create a new object per request.',
  [RQ, ST], [('stream/body_stream setters', RQ), ('encoding setter', RQ)], ['all public attributes'])
p('C23', 'Paths and URIs of a request are safely encoded and consistent',
  'The full path and URI of a request contain only characters legal in a URI, keep what was already encoded, decode back to the path sent, append a slash only when asked and missing, and carry the query string.',
  [I], 'all paths and query strings over the full byte alphabet within the bound', 'Tests use three literal paths.',
  [RQ, EN], [('get_full_path/get_uri', RQ), ('escape_uri_path, iri_to_uri, uri_to_iri', EN)], ['get_full_path(), get_uri()'])
p('C24', 'A malformed request is refused with documented errors only',
  'Whatever the bytes of the request, parsing terminates and either succeeds or raises one of the documented request exceptions.',
  [I], 'arbitrary bytes within the bound at every structural position of a request', 'Tests feed only valid requests and four malformed ones.',
  [RQ, MP, HT], [('HttpRequest.parse', RQ)], ['exception class'])
p('C25', 'Multi-value dictionary semantics',
  'Whatever sequence of operations is applied to a multi-value dictionary, it behaves as a mapping from keys to value lists: item access gives the last value, list access all of them in order as a copy, appending, updating, setting and deleting change exactly the key named.',
  [I, H], 'all operation sequences and keys/values up to the bound', 'Tests exercise a few single operations.',
  [DS], [('MultiValueDict', DS)], ['public methods'])
p('C26', 'Copies are independent and complete',
  'Copying, deep-copying or saving and restoring the state of a multi-value dictionary or query dictionary gives an equal object whose later changes do not affect the original and vice versa; a copy of a query dictionary is mutable.',
  [I, H], 'all contents, kinds of copy and following mutations within the bound', 'No test copies.',
  [DS, RQ], [('__copy__, __deepcopy__, __getstate__', DS), ('QueryDict.copy', RQ)], ['contents after mutation'])
p('C27', 'Immutable dictionaries refuse every change',
  'An immutable query or multi-value dictionary refuses every mutating operation with an attribute error and stays exactly as it was; when made mutable the operations work as on a multi-value dictionary.',
  [I, H], 'all mutators with all arguments up to the bound', 'Tests try two mutators.',
  [DS, RQ], [('_assert_mutable', RQ), ('ImmutableMultiValueDict', DS)], ['contents and exception class'])
p('C28', 'Query dictionary encoding round-trips',
  'Encoding a query dictionary and parsing the result gives the same dictionary, for any names and values, with or without extra safe characters.',
  [I, C], 'all keys, values, safe sets and charsets within the bound', 'No test calls it.',
  [RQ, HT], [('QueryDict.urlencode', RQ), ('limited_parse_qsl', HT)], ['parsed dictionary'])
p('C29', 'An immutable list never changes',
  'Every mutating list operation on an immutable list raises the configured error and the list keeps its items; reading works as on a tuple.',
  [I, H], 'all operations, contents and warnings up to the bound', 'No test.', [DS], [('ImmutableList.complain', DS)], ['contents, exception'])
p('C30', 'Redirect target safety is sound',
  'A URL declared safe for redirection, as any browser reads it (leading white space and control characters dropped, backslashes read as slashes), stays on the current or an allowed host and uses http(s) only, https if required; plain relative URLs are declared safe; no input makes the check fail.',
  [I, C], 'all URLs over the full byte alphabet and the URL alphabet within the bound', 'No test.',
  [HT], [('is_safe_url', HT), ('_urlsplit', HT)], ['result'])
p('C31', 'Base 36 and URL-safe base 64 round-trip',
  'Integers survive base 36 encoding and decoding, byte strings survive URL-safe base 64 with padding stripped and use only URL-safe characters, and undecodable input raises ValueError and nothing else.',
  [I], 'all integers below a bound, all byte strings up to a bound', 'No test.',
  [HT], [('int_to_base36', HT), ('urlsafe_base64_decode', HT)], ['results'])
p('C32', 'HTTP dates parse exactly',
  'A date in any of the three HTTP formats parses to its UTC time stamp, two-digit years follow the documented window, formatting then parsing is the identity, and anything else raises ValueError, or gives None in the safe variant.',
  [I], 'all dates with symbolic digits and names, arbitrary malformed strings within the bound', 'No test.',
  [HT], [('parse_http_date', HT), ('http_date', HT)], ['results'])
p('C33', 'Entity tags parse and quote exactly',
  'Parsing a list of entity tags returns exactly its valid tags in order, or a lone star; quoting a tag always gives a valid tag and leaves valid ones unchanged.',
  [I], 'all tag lists over the tag alphabet within the bound', 'No test.', [HT], [('parse_etags', HT), ('quote_etag', HT)], ['results'])
p('C34', 'Domain matching never crosses a label boundary',
  'A host matches a pattern exactly when it equals the pattern, or the pattern starts with a dot and the host is that domain or a subdomain of it; the case of the pattern is irrelevant, an empty pattern matches nothing.',
  [I], 'all hosts and patterns up to the bound', 'No test.', [HT], [('is_same_domain', HT)], ['result'])
p('C35', 'IRI and URI conversion is safe and reversible',
  'Converting to a URI gives only legal ASCII URI characters, leaves an already converted one unchanged, and converting back restores the original UTF-8 text with its percent escapes decoded; escaping a path does the same for paths.',
  [I], 'all byte strings up to the bound', 'No test.', [EN], [('iri_to_uri', EN), ('uri_to_iri', EN), ('escape_uri_path', EN)], ['results'])
p('C36', 'Entity unescaping replaces exactly the entities',
  'Unescaping replaces every well-formed numeric or named entity of a single byte by its character once, leaves everything else, including unknown, malformed and out-of-range entities, as it was, and never fails.',
  [I], 'all strings over the entity alphabet within the bound', 'No test.', [TX], [('unescape_entities', TX)], ['result'])
p('C37', 'Settings given override the defaults, the rest keep theirs',
  'A settings object built from a dictionary has exactly the values given and the documented defaults for everything else, and the limits it states are those the parser applies.',
  [C], 'all subsets of keys with symbolic values', 'Tests set two keys.', [ST], [('Settings.__init__', ST)], ['attributes, parser behaviour'])
p('C38', 'File objects read back completely',
  'Chunks, lines and size of a file object agree with its content: chunks concatenate to it and respect the chunk size, lines are those a line reader finds whatever the chunk size, the size is the length, and reading again gives the same.',
  [I, C], 'all contents over the line alphabet, all chunk sizes within the bound', 'No test.',
  [FB, UF], [('File.chunks/__iter__/size', FB), ('InMemoryUploadedFile', UF)], ['results'])
p('C39', 'URL helper functions keep meaning and fail as documented',
  'Escaping leading slashes yields a URL that no browser reads as another host and leaves others alone; encoding a mapping round-trips and refuses None; importing by dotted name returns the named object or raises ImportError.',
  [I], 'all inputs within the bound', 'No test.', [HT, ML], [('escape_leading_slashes', HT), ('urlencode', HT), ('import_string', ML)], ['results'])
p('C40', 'Questions about a request are answered from the request',
  'A request counts as an XMLHttpRequest exactly if its X-Requested-With header (name in any case) has that value, as secure exactly if its scheme is https, as plain text exactly if its media type is text/plain in any case; the questions can be asked before parsing and follow the stream that is set.',
  [I, H], 'all names, values, schemes and media types within the bound', 'No test.',
  [RQ], [('is_ajax, is_secure, is_plain_text', RQ), ('stream setter', RQ)], ['results'])

p('C41', 'No temporary upload file outlives its request',
  'After parsing a multipart request the upload directory holds exactly the temporary files of the completed uploads reported, each readable with its content; if parsing failed, a file was skipped, the upload was aborted or the body ended inside a file, nothing else is left there; closing the request closes every file and removes the rest, and may be repeated.',
  [I, C, F], 'all part sequences, handlers, memory limits, signals at any handler call, failing or ending sources, exceeded limits within the bound',
  'No test looks at the upload directory, and no test fails an upload half way.',
  [MP, UH, UF, RQ], [('MultiPartParser.parse/_close_files', MP), ('ConvenientFileUploadHandler', UH), ('TemporaryUploadedFile.close', UF), ('HttpRequest.close', RQ)], ['content of the upload directory, state of the files'])
p('C42', 'File objects answer for the file they stand for',
  'What a file object says about itself (closed, readable, writable, seekable, name, truth value, length, text form) is so for the file it stands for; opening it again rewinds it, a plain file is reopened by its path, and an uploaded file that is closed is never reopened, whatever its name; leaving a with block closes it and passes errors on; a closed file can do nothing.',
  [I, H], 'all contents, names and operation sequences within the bound', 'No test.',
  [FB, UF, 'request_parser/files/utils.py'], [('File.open/close/__enter__/__exit__', FB), ('FileProxyMixin', 'request_parser/files/utils.py'), ('UploadedFile.open', UF)], ['results, state of the file system'])
p('C43', 'Conversion between text and bytes keeps the text',
  'Converting to a byte string leaves byte strings as they are, encodes text in the encoding and error mode asked for and gives other objects their text form, protected ones unchanged if asked for; converting to text decodes bytes, replacing what is invalid, and never fails; a text form that cannot be decoded is the documented error; text encodings are told from other codecs.',
  [I], 'all texts, byte strings, encodings and error modes within the bound', 'No test.',
  [EN, RQ], [('force_str/force_text', EN), ('bytes_to_text, is_text_encoding', RQ)], ['results'])

NA = {}

TECH = 'path-wise symbolic execution of the real source, obligations decided by z3, counterexamples replayed on the real code under Jython'
NOTE = ('Holds for every value of the symbolic inputs within the bounds the harness states (BOUNDS in harness/%s.py, repeated in the evidence): all paths of the '
        'translated real source are explored and each obligation is discharged by the solver. Trusted: the translator and the models of built-ins and library '
        'functions (engine/), which are compared on every run with the real interpreter on a witness of every path. Outside the bounds nothing is claimed; a '
        'run that could not finish says so in its evidence (complete: false).')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for q in P:
            f.write(json.dumps(q) + '\n')
    checks, na = [], []
    for q in P:
        i = q['id']
        if i in NA:
            na.append({'property': i, 'reason': NA[i]})
        elif not os.path.exists(os.path.join(HERE, 'harness', i + '.py')):
            na.append({'property': i, 'reason': 'no check yet'})
        else:
            checks.append({'property': i, 'quick_cmd': 'python3-vt engine/check.py %s quick' % i, 'thorough_cmd': 'python3-vt engine/check.py %s thorough' % i,
                           'evidence_file': 'evidence/%s.json' % i, 'technique': TECH, 'level': 'model_checking', 'level_note': NOTE % i})
    m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo. engine/ translates the source of /repo at run time; harness/ holds one harness per property; known_findings.jsonl lists repaired and recorded defects.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    for q in P:
        assert len(q['title']) <= 80, q['title']


main()
