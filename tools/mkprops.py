import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])
    if state: a['state']=[dict(name=x,meaning=x,where=files[0]) for x in state]
    if observe: a['observe_at']=observe
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))
E='src/keri/core/eventing.py'; C='src/keri/core/coring.py'
p('C01','Key events need verified signatures from a satisfying set of keys',
 'A key event is accepted only if the distinct positions of its identifier\'s current key list whose keys carry a valid signature over exactly that event\'s bytes satisfy the signing threshold in force, and an otherwise valid event whose signatures do so is accepted. Invalid signatures, out of range indices and repeated signatures at one position contribute nothing, in whatever order or with whatever index codes they are presented.',
 ['inputs','histories'],'every event kind, key list, threshold (numeric or nested fractional), list of attached signatures including duplicates, forgeries and out of range indices',
 'Tests present a handful of well formed signature lists; the signature-list, index-code and threshold spaces are unbounded and adversarial.',
 [E,C],[('verifySigs',E),('Kever.valSigsWigsDel',E),('Kever.logEvent',E),('Tholder.satisfy',C)],['key event log','key state'],['Kever','Kevery.processEvent'])
p('C02','Key event logs grow only by the next correctly chained event',
 'An event extends an identifier\'s accepted log exactly when it is properly signed and has that identifier, the next sequence number (or the lawful recovery position for a rotation), and the digest of the event it follows as its prior; a rotation may only supersede interaction events and an interaction never supersedes anything. A rejected event leaves the accepted key state unchanged.',
 ['inputs','histories'],'every key state and every incoming rotation or interaction event',
 'Tests replay fixed valid histories and a few broken ones; the claim is over all states and all adversarial events.',
 [E],[('Kever.update',E),('Kever.rotate',E),('Kever.locate / statement order',E),('Kever.incept',E)],['key state (sn, serder, ilk, last establishment)'],['Kever.update'])
p('C03','Rotation requires the pre-committed keys and next threshold',
 'A rotation takes effect only if keys it exposes, matched position by position to the digests committed in the previous establishment event, each carry a verified signature and together satisfy the previously committed next threshold. A key that was not committed never counts towards it, and an identifier whose last establishment event committed to no next keys can never rotate again.',
 ['inputs','histories'],'every prior commitment (digest list and threshold), new key list and signature list with dual indices',
 'The pairs of (commitment, exposure, dual-indexed signatures) are unbounded; tests use aligned ones.',
 [E,C],[('Kever.exposeds',E),('Kever.valSigsWigsDel',E),('Kever.rotate',E)],['next key digests, next threshold'],['Kever.update'])
p('C04','Witness lists and receipting thresholds are exact',
 'After a rotation the witness list is the previous one minus the cuts followed by the adds, with no duplicates, and rotations whose cuts or adds overlap, repeat or do not fit are refused; a witness threshold is only accepted between its lower and upper bounds. A witnessed event is accepted only once distinct designated witnesses with verified signatures number at least that threshold, unless this controller itself is responsible for it.',
 ['inputs','configurations'],'every witness list, cut list, add list, threshold and witness signature list',
 'Set algebra and threshold bounds are claims over all lists and all integers; tests check a few.',
 [E],[('deWitnessDerive / Kever.deriveBacks',E),('ample, simple, majority',E),('Kever.valSigsWigsDel',E),('Kever.incept',E)],['witness list and threshold'],['Kever','incept/rotate helpers'])
p('C05','Delegated events need an anchoring seal from their delegator',
 'A delegated establishment event is accepted by others only when the delegator\'s accepted log contains an event with a seal carrying exactly the delegate\'s identifier, sequence number and digest, and it is never accepted when its delegator forbids delegation. Superseding a delegated establishment event needs a superseding approval by the delegator as the recovery rules order them.',
 ['inputs','histories'],'every delegator log, seal, delegated event and competing delegated event',
 'Recovery rules compare whole histories; tests run a few scripted delegations.',
 [E],[('Kever.validateDelegation',E),('Kever.fetchDelegatingEvent',E)],['delegator log, authorizer couples'],['Kever.update'])
p('C06','First seen wins: duplicates are idempotent and conflicts are refused',
 'Once an event is accepted for an identifier at a position, a different event for that position is refused unless it is a lawful recovery, and the accepted event is never replaced; re-presenting the accepted event only adds verified signatures. First seen ordinals are dense and strictly increasing, and every accepted event gets exactly one.',
 ['inputs','histories'],'every order and repetition of incoming events',
 'Needs all presentation orders and repetitions, tests try a few fixed ones.',
 [E],[('Kevery.processEvent',E),('Kever.logEvent',E)],['kels, fels, events databases'],['Kevery.processEvent'])
p('C07','Threshold expressions mean what they say',
 'A numeric threshold is satisfied by exactly the index sets with at least that many distinct members; a fractional threshold by exactly those whose weights sum to at least one in every clause, nested weights counting when their inner sum reaches one. Parsing then serializing a threshold in any of its forms gives an equivalent threshold, and malformed or unsatisfiable expressions are refused.',
 ['inputs'],'every threshold expression and every list of indices',
 'Threshold expressions are recursive and weights are rationals; tests use a few examples.',
 [C],[('Tholder',C)],None,['Tholder.satisfy'])
p('C08','Primitive encoding is canonical and lossless',
 'Every cryptographic primitive decodes from its text or binary form to the same code and raw bytes it was encoded from, with the exact length its code promises; text and binary forms convert into each other without loss. Text or bytes that are not the canonical encoding of some primitive (wrong length, non Base64URL characters, non zero pad bits, unknown code) are refused rather than read as something else.',
 ['inputs'],'every code in the tables, every raw value, every text or byte string',
 'Value spaces are 2^n; tests check a few constants per code.',
 [C,'src/keri/help/helping.py'],[('Matter._infil/_exfil/_binfil/_bexfil',C),('intToB64, b64ToInt, codeB64ToB2, codeB2ToB64, nabSextets','src/keri/help/helping.py'),('Number, Dater, Seqner, Tagger ...',C)],None,['Matter subclasses'])
p('C09','Indexed signatures and group counters encode exactly',
 'An indexed signature round trips its code, index, other index and raw bytes through both domains, and codes that carry only one index never yield another. A group counter round trips its code and count, refuses counts it cannot carry, and its announced size is what it occupies.',
 ['inputs'],'every code, every index pair and count in and out of range, every raw value',
 'Index and count ranges go to 64^5 and boundaries differ by code; tests sample.',
 ['src/keri/core/indexing.py','src/keri/core/counting.py'],[('Indexer._infil/_exfil/_binfil/_bexfil','src/keri/core/indexing.py'),('Counter._infil/_exfil/_binfil/_bexfil','src/keri/core/counting.py')],None,['Indexer','Siger','Counter'])
p('C10','Version strings round trip and are recognised at the right place only',
 'Any protocol, protocol version, genus version, serialization kind and size that fits encodes to a version string of fixed width that parses back to exactly those values. Text that is not a version string of a supported version, or that appears past the permitted offset, is refused.',
 ['inputs'],'all supported protocols, kinds, versions and sizes up to the width limit; arbitrary byte prefixes',
 'Sizes range over 2^24; tests check a few.',
 ['src/keri/kering.py'],[('versify, deversify, rematch, smell, Versionage','src/keri/kering.py')],None,['versify/deversify/smell'])
p('C11','A message\'s self-addressing digest covers its whole content',
 'A message is accepted as well formed only if its digest fields equal the digest of its canonical serialization with those fields set to dummy characters, the size in its version string equals its length, and it has exactly the fields its type and version demand, in order. Any change to any field value, order or length is therefore refused, and making then parsing a message gives back an equal one.',
 ['inputs'],'every message type, version, serialization kind and every field mutation',
 'Mutations are unbounded; tests try a few.',
 ['src/keri/core/serdering.py',C],[('Serder.makify/verify/_verify/_exhale/_inhale','src/keri/core/serdering.py'),('Saider / Diger',C)],None,['Serder'])
p('C12','Stream extraction takes exactly one message and its own attachments',
 'Parsing consumes exactly the bytes of each message and of the attachments its counters announce, hands each message only its own attachments in stream order, and does so identically however the bytes are split into chunks. A malformed message or attachment causes nothing to be accepted from it and does not swallow or corrupt a following framed message.',
 ['inputs','schedules'],'every byte stream and every chunking of it',
 'Chunkings and malformed streams are exponential in number; tests use one-shot streams.',
 ['src/keri/core/parsing.py'],[('Parser.allParsator/onceParsator/msgParsator, extractor methods','src/keri/core/parsing.py')],None,['Parser.parse'])
p('C13','Ordinal database keys are ordered, injective and reversible',
 'Splitting a key built from an identifier and an ordinal gives both back; keys of one identifier sort in numeric order of their ordinals; and keys of different identifiers or ordinals never coincide. Out of range ordinals are refused.',
 ['inputs'],'every identifier or path without separator clashes and every ordinal up to the maximum',
 'Ordinals go to 2^128; tests use a few.',
 ['src/keri/db/dbing.py'],[('snKey, fnKey, onKey, dgKey, dtKey, splitKey, splitOnKey, suffix, unsuffix, nextKey ...','src/keri/db/dbing.py')],None,['dbing helpers'])
D='src/keri/db/dbing.py'
p('C14','Local store operations behave like an ordered map of ordered sets',
 'Each operation of the local key-value store and its typed layers has the effect and answer of the abstract map it presents: put never overwrites, pin replaces, append takes the next ordinal, insertion-ordered sets keep insertion order without duplicates, and removal and iteration touch exactly the named key or prefix. What is stored through a typed layer is read back equal.',
 ['histories','inputs'],'every sequence of operations over every key and value',
 'The guarantee is over all operation histories; tests run short fixed ones.',
 [D,'src/keri/db/subing.py','src/keri/db/koming.py'],[('LMDBer.*Val/On*/IoSet*/OnIoSet*/Dup*',D),('Suber family','src/keri/db/subing.py'),('Komer family','src/keri/db/koming.py')],['LMDB sub databases'],['LMDBer, Suber, Komer'])
W='src/keri/db/webdbing.py'
p('C15','The web store gives the same answers as the local store',
 'Each operation of the browser-side store has the effect and answer of the abstract ordered map it presents: put never overwrites, pin replaces, append takes the next ordinal, insertion-ordered sets keep order without duplicates, and removal, counting and iteration touch exactly the named key, branch or ordinal range. No operation changes entries other than the ones it names.',
 ['histories','inputs'],'every sequence of operations over every key, ordinal and value in every sub-store',
 'The guarantee is over all operation histories; tests run short fixed ones.',
 [W],[('WebDBer operations','%s'%W),('SubDB',W)],['sub-store mappings'],['WebDBer'])
p('C16','Web store changes survive flush and reopen',
 'Every operation that changes a sub-store makes the next flush write it, so after a flush and reopen the store holds exactly what it held before, in every sub-store. A failed or interrupted flush loses no change: a later flush writes it.',
 ['histories','crash_points','fault_sequences'],'every operation history followed by flush and reopen, including failing backends',
 'Needs every operation paired with a flush and every failing point; tests cover a few.',
 [W],[('WebDBer.flush / reopen / close',W),('SubDB.dirty',W)],['backing storage','dirty marks'],['WebDBer.flush'])
R='src/keri/core/routing.py'
p('C17','Reply acceptance keeps only the best available data',
 'A signed reply replaces the stored one for the same subject only if it is authorised by the subject\'s own keys at a later or equal key state and, at equal key state, later date and time; an older or replayed reply never displaces a newer one. Replies whose signatures do not verify or do not meet the threshold never become effective.',
 ['inputs','histories'],'every pair of stored and incoming replies, transferable or not, in any order',
 'Order and timestamp combinations are unbounded; tests try a few.',
 [R],[('Revery.acceptReply, updateReply, escrowReply, processReply',R)],['replies, saider index, escrow'],['Revery.processReply'])
p('C18','Endpoint authorisations record exactly the latest accepted grant or denial',
 'After an accepted endpoint-role or location reply, the stored authorisation or address is exactly what that reply states for its controller, role, endpoint and scheme; a cut or empty address disables it and nothing else is changed. Replies with an unknown route, role, scheme or an issuer that is not the subject\'s controller have no effect.',
 ['inputs','histories'],'every sequence of add, cut and location replies',
 'Histories are unbounded; tests run a few.',
 [E],[('Kevery.processReplyEndRole / processReplyLocScheme / updateEnd / updateLoc',E)],['ends, locs databases'],['Kevery.processReply...'])
p('C19','Request replays and stale requests are refused',
 'A request that policy does not exempt is accepted only inside the timeliness window its message type has, and inside the lifetime of its exchange if it belongs to one, and only with a seal in its sender\'s log or verified signatures of the sender that together satisfy the sender\'s threshold; signatures may come in parts while the request is cached. An accepted request is never accepted again, whatever is attached to it, however caches are pruned and policy changes meanwhile. Requests of excluded senders and unsigned requests are never accepted, and a new, timely, authenticated one is.',
 ['inputs','schedules','histories'],'every timestamp, drift, lag, order and repetition of requests',
 'Time and order are unbounded; tests sample a few instants.',
 ['src/keri/core/kraming.py'],[('Kramer.intake/kramit and cache handling','src/keri/core/kraming.py')],['replay caches'],['Kramer'])
p('C20','Credential registries move only through lawful states',
 'A registry event is accepted only in sequence, chained to the prior event, and anchored in the issuer\'s key event log by a matching seal, with backers changing only as rotations allow. A credential is issued at most once and revoked at most once and only after issuance; the reported state is that of the latest accepted event.',
 ['inputs','histories'],'every sequence of registry, issuance and revocation events',
 'Histories are unbounded; tests run a few lifecycles.',
 ['src/keri/vdr/eventing.py'],[('Tever.update/rotate/issue/revoke/valAnchorBigs/vcState, Tevery','src/keri/vdr/eventing.py')],['transaction event log'],['Tever, Tevery'])
p('C21','Only schema-valid, issued, correctly chained credentials are saved',
 'A credential is stored as verified only when its own registry has issued it (a revoked one is kept as such and never supports another), its content validates against its schema, its issuer is the registry\'s controller, and every edge points to a stored unrevoked credential meeting the edge\'s schema and operator. Otherwise it is refused or held without being stored as verified.',
 ['inputs','configurations'],'every credential, registry state, schema and edge graph',
 'The space of edge graphs and operators is unbounded; tests use a few chains.',
 ['src/keri/vdr/verifying.py'],[('Verifier.processCredential, verifyChain, saveCredential','src/keri/vdr/verifying.py')],['saved credentials, escrows'],['Verifier'])
K='src/keri/app/keeping.py'
p('C22','The keystore signs only with the keys the rotation history made current',
 'After any sequence of inceptions and rotations of a key sequence, its current keys are exactly the ones announced as next before, freshly created next keys follow the salt, path and index deterministically, and each public key\'s secret signs for that key. With encryption on, stored secrets are never in the clear and decrypt to the same keys, and failed operations leave the key sequence unchanged.',
 ['histories','configurations'],'every sequence of key creation and rotation with every algorithm and encryption setting',
 'Histories are unbounded; tests run short ones.',
 [K],[('Manager.incept/rotate/sign/updateAeid','%s'%K)],['prefix situations, key secrets'],['Manager'])
p('C23','Exchange messages are delivered once, from verified senders',
 'A peer-to-peer message reaches its handler only after its sender\'s signatures verify against the sender\'s accepted key state they name and, for transferable senders, meet its threshold, and only if the handler\'s route and the prior-message chain allow it. It reaches the handler once however often it is presented, and what is stored is the message with only signatures that verified.',
 ['inputs','histories'],'every message, signer set and handler',
 'Signature sets and message chains are unbounded; tests sample.',
 ['src/keri/peer/exchanging.py'],[('Exchanger.processEvent, verify, cloneMessage, logEvent','src/keri/peer/exchanging.py')],['exns, epath databases'],['Exchanger'])
p('C24','Receipts are credited only to the keys that made them',
 'A receipt signature is stored for an event only if it verifies over that event\'s exact bytes with the key it claims: a listed witness, another non-transferable identifier, or the receiptor\'s keys at the establishment event it names. Receipts for events not yet accepted are held and credited only under the same condition.',
 ['inputs','histories'],'every receipt, claimed signer and event',
 'Adversarial receipts are unbounded; tests sample.',
 [E],[('Kevery.processReceipt / processAttachedReceiptCouples / processReceiptTrans ...',E)],['rcts, wigs, vrcs databases'],['Kevery'])
p('C25','The specification example checker reports exactly the examples that disagree',
 'The checker reports success exactly when every tagged example of the specification and every example of the manifest pair off one to one and are equal in value; every missing, extra, duplicated, unparsable or differing example is named and makes it exit with a failing status. The companion tagging tool only inserts marker lines before untagged examples equal to exactly one canonical example, changes nothing else, and run twice does the same as once.',
 ['inputs'],'every specification document and every manifest of canonical examples',
 'Documents are arbitrary; tests use a few snippets.',
 ['tools/check_spec_examples.py','tools/tag_spec_examples.py'],[('checker functions','tools/check_spec_examples.py'),('tagger functions','tools/tag_spec_examples.py')],None,['tools entry point'])
p('C26','HTTP signature headers round trip',
 'Signature and digest headers built for a request parse back to the same signatures, indices, identifiers and digests they were built from. Malformed headers are refused.',
 ['inputs'],'every list of signatures and tags',
 'Lists and tags are arbitrary; tests use a few.',
 ['src/keri/end/ending.py'],[('signature, designature, normalize','src/keri/end/ending.py')],None,['ending'])
p('C27','Compact and expanded forms of nested data commit to the same digest',
 'Compacting a nested container in any order, or expanding it again with the original sections, yields the same top-level digest, and fixed-field maps and structures decode to the fields they were encoded from. Missing, extra or misordered fields are refused.',
 ['inputs'],'every nesting of sections and every fixed-field structure',
 'Nestings are recursive and unbounded; tests use a few.',
 ['src/keri/core/mapping.py','src/keri/core/structing.py'],[('Mapper, Compactor','src/keri/core/mapping.py'),('Structor family','src/keri/core/structing.py')],None,['Compactor, Structor'])
p('C28','Mailbox topics deliver each stored message once and in order',
 'A message stored to a topic gets the next ordinal of that topic and no other, and reading a topic from an ordinal yields exactly the messages stored at or after it, in order, unaltered. Messages stored under other topics never appear.',
 ['histories'],'every sequence of stores and reads over all topics',
 'Histories are unbounded; tests run a few.',
 ['src/keri/app/storing.py',D],[('Mailboxer.storeMsg, cloneTopicIter','src/keri/app/storing.py')],['topic and message stores'],['Mailboxer'])
p('C29','Escrowed events are eventually accepted once what they wait for arrives',
 'When the missing signatures, receipts, prior events or seals of an escrowed event arrive before its timeout, repeated escrow processing eventually accepts it, in any arrival order.',
 ['schedules','histories'],'every arrival order of an event and what it waits for',
 'Arrival orders are exponential; tests try a few.',
 [E],[('Kevery.processEscrows and its parts',E)],['escrow databases'],['Kevery.processEscrows'])
p('C30','A crash between dependent writes leaves a recoverable event log',
 'If the process stops between the separate database writes that accept one event, reopening leaves each accepted event with its message, signatures and order entry, and reloading reaches the same key state.',
 ['crash_points','histories'],'every crash point between writes of one acceptance',
 'Tests never crash between writes.',
 [E,'src/keri/db/basing.py'],[('Kever.logEvent',E),('Baser.reload / clean','src/keri/db/basing.py')],['LMDB environment'],['Baser.reload'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert len(x['title'])<=80,x['title']
print(len(P))
