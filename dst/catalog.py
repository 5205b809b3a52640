"""Writes properties.jsonl and MANIFEST.json (run by hand: python3 -m dst.catalog)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'deterministic simulation with fault injection'


def P(id, title, statement, over, text, why, files, mechanism, observe, state=(), level='exploration',
      technique='', note=''):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                mechanism=mechanism, observe=observe, state=state, level=level, technique=technique, note=note)


ALL = 'pyasn1_modules/rfc*.py'

PROPS = [
    P('P01', 'PEM blocks come out exact, in order, once, from any kind of text source',
      'Reading PEM blocks (or a bare base64 body) from a text source returns each block between its BEGIN and END '
      'lines exactly, with the index of the marker pair that matched, in source order and only once, and leaves the '
      'source just after the block it returned.  How the source hands over its bytes, the line ending style, blanks '
      'around lines, unrelated text between blocks and changes of the wanted markers from call to call make no '
      'difference; when nothing is left the reader says so.',
      ['schedules', 'histories', 'inputs'],
      'every fragmentation and delay of the source, every sequence of reader calls, every block content and text around it',
      'The tests read a few whole in-memory blocks; none varies how the source delivers bytes, mixes marker sets '
      'between calls or looks at where the source is left.',
      ['pyasn1_modules/pem.py'], [('line-by-line marker state machine', 'pem.py:readPemBlocksFromFile'),
                                  ('base64 readers', 'pem.py:readPemFromFile, readBase64fromText, readBase64FromFile')],
      ['return values of the pem readers', 'position of the source after each call'],
      technique='seeded fragmenting text source, call histories against a reference reader',
      note='Real pem.py over real io layers on a simulated raw source; oracle is a reference reader of the block structure.'),
    P('P02', 'A damaged or failing PEM source never yields partial, mixed or stray data',
      'Whatever truncates, corrupts, splices, duplicates or reorders lines of a PEM source, the reader never returns '
      'octets that are not the decoding of the lines between one BEGIN line and its own END line, never joins two '
      'blocks, and reports a block that cannot be completed as not found.  An error raised by the source itself '
      'reaches the caller unchanged, and the next call continues from there with nothing remembered from the failed one.',
      ['fault_sequences', 'inputs'],
      'every truncation point, line loss, duplication, splice, and every read at which the source raises',
      'No test feeds a damaged block or a source that fails.',
      ['pyasn1_modules/pem.py'], [('marker state machine', 'pem.py:readPemBlocksFromFile')],
      ['return values and exceptions of the pem readers'],
      technique='seeded damage and I/O error injection into the text source',
      note='Oracle: structural reference over the damaged text as actually delivered.'),
    P('P03', 'PEM readers on different sources never influence one another',
      'Any number of PEM reading calls in progress at the same time in one process, on threads or nested inside one '
      'another\'s sources, each over its own source, return exactly what each would return alone.',
      ['schedules'], 'every interleaving at line granularity of 2-4 threads, and nesting',
      'The tests only ever run one reader at a time.',
      ['pyasn1_modules/pem.py'], [('no state outside the call', 'pem.py')], ['return values per reader'],
      technique='seeded thread scheduler that owns every interleaving',
      note='Real threads, one running at a time; switches at every source line of pem.py and at every simulated read.'),
    P('P04', 'What registries hold does not depend on import order',
      'For a given set of imported modules, every public registry (extensions, attributes, algorithms, content types, '
      'other names, qualifiers ...) maps the same identifiers to equivalent types in whatever order, by whatever '
      'route and however often those modules were imported; all modules that offer a registry offer the same one.',
      ['schedules', 'configurations'], 'every order of importing every subset of the modules',
      'Tests import each module in one order per process; the order of about 110 modules that update 23 shared '
      'registries on import is never varied.',
      [ALL], [('registries updated on import', 'the *Map.update(...) tail of the rfc modules')],
      ['module-level maps'], [dict(name='registries', meaning='identifier -> type', where='rfc5280.py, rfc5652.py, rfc4211.py ...')],
      technique='seeded import schedules, structural comparison with the reference order',
      note='Equivalence is structural (tags, components, constraints, defaults), not class identity.'),
    P('P05', 'Importing more modules never takes away or changes what could be decoded',
      'Importing a further module only adds to what a process can decode: every identifier known before stays known '
      'and keeps its meaning, values encoded before decode and re-encode the same after, and schema objects '
      'and registries obtained before the import recognise the newly known identifiers too.',
      ['histories', 'schedules'], 'every point of every import sequence, with decoding between imports',
      'Tests never decode between imports, and most import everything they need up front.',
      [ALL], [('shared maps updated in place', 'the *Map.update(...) tail of the rfc modules'),
              ('open types bound to the shared maps', 'opentype.OpenType(..., map) in the rfc modules')],
      ['decodings with decodeOpenTypes', 'module-level maps'],
      technique='seeded import/decode histories with crash-restart',
      note='A long-running node that imports lazily while it serves messages.'),
    P('P06', 'A failed import leaves nothing broken behind',
      'When importing a module is interrupted at any point (unreadable file, interrupt, memory exhaustion) the error '
      'reaches the importer, everything imported before keeps decoding as it did, and importing again afterwards gives '
      'exactly the state of a process in which nothing had failed.',
      ['crash_points', 'fault_sequences'],
      'every executed source line and every file access of importing every module, as the point of failure',
      'No test interrupts an import.',
      [ALL], [('registry updates are idempotent and come last', 'tail of the rfc modules')],
      ['module-level maps', 'decodings'],
      technique='seeded faults at every import step (line, file access), retry, comparison with the fault-free world',
      note='Real import system and modules; faults raised by a trace hook and by the simulated file access.'),
    P('P07', 'Importing from several threads at once is as good as importing one by one',
      'When threads import modules of the package concurrently, in any interleaving, every import completes without '
      'deadlock or error, each thread can use what it imported at once, and registries and types end up as after '
      'importing the same modules one after the other.',
      ['schedules'], 'every interleaving of the import of 2-4 module lists on 2-4 threads',
      'The tests import from one thread only.',
      [ALL], [('no import cycles; updates in place', 'imports at the head, maps at the tail of the rfc modules')],
      ['module-level maps', 'decodings right after import'],
      technique='seeded thread scheduler with simulated import locks',
      note='Real modules and import machinery; the per-module import lock is replaced by a scheduler-owned one.'),
    P('P08', 'Threads may share schemas: concurrent decoding and encoding equals serial',
      'Threads that decode, encode, build and read messages at the same time, sharing the modules\' schema objects and '
      'registries, each get exactly the result they would get alone, and the shared objects are unchanged afterwards.',
      ['schedules'], 'every interleaving of 2-4 threads working with shared schema objects',
      'The tests are single threaded.',
      [ALL], [('schema objects are templates, never written to', 'componentType definitions in the rfc modules')],
      ['decoded values', 'encodings', 'schema objects'],
      technique='seeded thread scheduler, line-level switches inside modules and codecs',
      note='Serial execution of each thread\'s own work is the oracle.'),
    P('P09', 'Two independent parties understand each other, on a bad network too',
      'A message of any published type that an independent implementation encodes (DER, or BER in any legal form) is '
      'decoded to exactly the value sent, and encoded again, or built from scratch through the API, to exactly the '
      'DER octets; named numbers, defaults and exported constants stand for the published values.  However the stream '
      'fragments, stalls, is cut and retransmits, a message is taken only when all of it has arrived, and a crash and '
      're-import of the node in between changes nothing.',
      ['inputs', 'fault_sequences', 'histories'],
      'every component, alternative, named value, default and boundary of the 1549 published types, over every '
      'fragmentation, cut and crash',
      'The tests decode one or two sample messages for most modules and none of the alternatives, defaults or '
      'optional parts the samples do not happen to use.',
      [ALL], [('tags, components, defaults, constraints of every type', 'class bodies of the rfc modules')],
      ['decode / encode results', 'constants'],
      technique='two-party simulation over a faulty stream against an independent ASN.1 stack',
      note='Peer is a from-scratch encoder over a frozen wire model; framing, values and octets are compared.'),
    P('P10', 'Malformed messages are refused, and never emitted',
      'A message that lacks a mandatory component, carries an element the format does not know there, or a value '
      'outside the published range, size, alphabet or value set is refused with an error, whatever else goes over the '
      'link; an application cannot make the library emit such a message (nor one with too few or too many elements in '
      'a list); refusing leaves the node able to serve the next valid message as before.',
      ['inputs', 'fault_sequences'],
      'every mandatory component, component tag, and constraint boundary of every published type, interleaved with '
      'valid traffic on a lossy link',
      'The tests contain hardly any invalid message.',
      [ALL], [('optionality, tags and subtype constraints', 'class bodies of the rfc modules')],
      ['decoder and encoder errors'],
      technique='seeded hostile peer on a lossy datagram link, valid traffic interleaved',
      note='Only violations that are unmistakable on the wire are sent; OF sizes are checked when encoding.'),
    P('P11', 'Typed holes open to the registered type, or stay raw',
      'When asked to decode open types, a field governed by an identifier comes out as the type registered for that '
      'identifier with exactly the value sent, as raw octets when the identifier is not known, and as what a '
      'caller-supplied map says for that call only; not asked, it stays raw.  Re-encoding gives the octets received '
      'in each case, and every published identifier is registered for its published type.',
      ['inputs', 'histories', 'configurations'],
      'every registry entry in every container field it governs, with histories of calls with and without caller maps',
      'The tests open a handful of identifiers in sample messages and never mix calls with and without caller maps.',
      [ALL], [('OpenType bindings and maps', 'opentype.OpenType(...) and *Map dicts of the rfc modules')],
      ['decoded open type fields'],
      technique='two-party simulation; registry entries carried in every governed field across histories and restarts',
      note='Published bindings are frozen in the wire model.'),
    P('P12', 'Generations of the same structure relay each other\'s messages unchanged',
      'Where several modules publish the same structure (old and new generations of X.509, CMS, PKCS, CMP ...), a '
      'message passed through any chain of nodes, each using another of those modules, arrives octet for octet as '
      'sent and means the same at every hop, whether nodes relay the value they decoded or copy it into their own types.',
      ['configurations', 'histories', 'inputs'],
      'every chain over the groups of same-named types with the same wire structure, every value',
      'Each test file uses one generation only.',
      [ALL], [('identical published structures', 'e.g. rfc2459/rfc3280/rfc5280, rfc2315/rfc3852/rfc5652')],
      ['octets at each hop'],
      technique='multi-node relay simulation with duplication, reordering and restarts',
      note='Groups are found in the frozen model: same class name and same wire skeleton.'),
    P('P13', 'What a process did before never changes what a message means',
      'Decoding, encoding, building, reading, cloning or failing at anything any number of times, on any mixture of '
      'modules, never changes the outcome of a later operation: the published schema objects, defaults, constants and '
      'registries are the same afterwards as in a fresh process.',
      ['histories', 'fault_sequences'],
      'every history of operations, including aborted ones (interrupt or memory exhaustion inside a decode)',
      'Tests run a few operations on fresh objects and never compare with a fresh process afterwards.',
      [ALL], [('schema objects are templates', 'rfc modules'), ('no state in types with behaviour', 'rfc7191.py:siren_dn')],
      ['results of operations compared with a fresh process', 'schema objects'],
      technique='seeded operation histories with injected aborts, compared with a fresh world',
      note='Interrupts and memory errors are injected at seeded lines inside codec and module code.'),
    P('P14', 'The dump tools show what the input holds, however it arrives',
      'Each dump tool run on a valid input (PEM or base64 as documented) ends with status success and prints exactly '
      'the structures in the input, as many times as they occur and in order, whatever way the input stream delivers '
      'its bytes; the count it reports is the number it printed.',
      ['inputs', 'schedules'],
      'every message of the tool\'s kinds, every fragmentation of standard input, every sequence of blocks',
      'Tools have no tests.',
      ['tools/*.py', 'pyasn1_modules/pem.py'], [('read, decode, print loop', 'tools/*.py')],
      ['standard output', 'exit status'],
      technique='tools run in-process on simulated standard streams, outputs compared with an independent rendering',
      note='The text is compared with the rendering of values that are themselves compared with what the peer sent.'),
    P('P15', 'Tools end and fail cleanly on whatever they are given',
      'On any input at all, truncated, corrupted, spliced or hostile, and when the input or output stream fails, each '
      'dump tool ends after a bounded number of steps.  What it prints is the structures the input as delivered holds '
      '(complete PEM blocks, or the base64 body), in order, up to the first that is bad, and nothing else.  It '
      'reports success only if all of them were printed, each decoded and encoded back to its own octets, and no '
      'stream failed.',
      ['fault_sequences', 'inputs'], 'every damaged input and every failing read or write',
      'Tools have no tests.',
      ['tools/*.py'], [('decode errors propagate; re-encoding is compared with the input', 'tools/*.py')],
      ['termination', 'exit status', 'standard output'],
      technique='fault injection on simulated standard streams, step budget for termination',
      note='Steps of tool and reader code are counted; no wall clock.'),
    P('P16', 'The OCSP client asks for the right certificate and reports only the answer',
      'Run with a certificate and its issuer, the OCSP client sends the responder the certificate\'s serial number '
      'with the issuer\'s name and key hashes, and what it prints is what the responder answered; when the two do not '
      'belong together it asks nothing, and when the connection '
      'fails, or the answer is an error, cut short or unintelligible, it prints no certificate status.',
      ['fault_sequences', 'inputs'],
      'every certificate pair and every responder behaviour and transport fault',
      'Tools have no tests.',
      ['tools/ocspclient.py', 'pyasn1_modules/rfc2560.py'], [('request construction and response walk', 'tools/ocspclient.py')],
      ['request octets', 'standard output', 'exit status'],
      technique='simulated HTTP responder and transport under fault injection',
      note='Real urllib and http.client on a simulated TCP connection; the responder has its own ASN.1 stack.'),
    P('P17', 'snmpget asks exactly once for what it was told and prints only a sound answer',
      'snmpget sends exactly one SNMPv1 GET for the community and object identifier given to the agent given, and '
      'prints the response the agent sent; on a damaged response or a failing socket it prints no value.',
      ['fault_sequences', 'inputs'],
      'every community, host and identifier, every response and transport fault',
      'Tools have no tests.',
      ['tools/snmpget.py', 'pyasn1_modules/rfc1157.py'], [('request construction, socket use', 'tools/snmpget.py')],
      ['datagrams', 'standard output'],
      technique='simulated agent on a simulated datagram socket under fault injection',
      note='socket is stubbed; time-outs are not part of the property (the tool has none).'),
    P('P18', 'Every module follows the text of the RFC it implements',
      'Each type, tag, constraint and identifier is what the RFC (with errata) says.',
      ['inputs'], 'every definition of every RFC',
      'Needs the RFC texts.', [ALL], [('transcription', 'rfc modules')], ['definitions']),
    P('P19', 'The package works on every Python and pyasn1 release it declares',
      'The same behaviour on every declared Python (2.7, 3.6+) and pyasn1 (>=0.4.7) release.',
      ['configurations'], 'every declared release pair',
      'Only one interpreter and one pyasn1 are installed.', ['setup.py'], [('compatibility code', 'setup.py')], ['all']),
]

NA = {
    'P18': 'The RFC texts are not in the sandbox, and a transcription has no schedule, fault or history in it: deterministic '
           'simulation decides only that the tree keeps the wire format it publishes (P09-P12), not that the RFC says so.',
    'P19': 'Only one interpreter and one pyasn1 release are installed and nothing can be fetched; a version matrix has no '
           'schedule or fault for a simulator to own.',
}


def main():
    built = {p['id'] for p in PROPS
             if os.path.exists(os.path.join(ROOT, 'dst', 'props', p['id'].lower() + '.py'))}
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': ' '.join(p['statement'].split()),
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'state': list(p['state']),
                            'mechanism': [{'name': a, 'where': b} for a, b in p['mechanism']],
                            'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
    checks, na = [], []
    for p in PROPS:
        if p['id'] in built:
            checks.append({'property': p['id'], 'quick_cmd': './check ' + p['id'],
                           'thorough_cmd': 'VERIF_TIER=thorough ./check ' + p['id'],
                           'evidence_file': 'evidence/%s.json' % p['id'],
                           'technique': '%s: %s' % (TECH, p['technique']),
                           'level': p['level'],
                           'level_note': 'Seeded search, not exhaustive. ' + p['note']})
        else:
            na.append({'property': p['id'], 'reason': NA.get(p['id'], 'Check not built yet.')})
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': './check setup', 'checks': checks, 'not_applicable': na,
                   'notes': 'No hooks in /repo: every seam is outside it (source objects, import system, standard '
                            'streams, socket and urllib modules, trace hook). See DESIGN.md.'}, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
