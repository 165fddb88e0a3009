import os
from engine import build, drive, generate, model_check, validate

PROPS = {}
NOT_APPLICABLE = {}


def prop(pid, level='model_checking', **kw):
    def reg(f):
        PROPS[pid] = dict(level=level, run=f, **kw)
        return f
    return reg


def tr(run, name='trace'):
    return os.path.join(run.scratch, name + '.ndjson')


def simple(run, cmd, module, args=(), timeout=700, name='trace', **kw):
    b = build(run, cmd)
    t = tr(run, name)
    drive(run, b, list(args), t, timeout=timeout)
    run.log('driver done')
    validate(run, t, module, **kw)


# ---------------------------------------------------------------- key-value stores

@prop('K01', note='Exhaustive on a bounded abstract instance; every recorded execution of both providers (TLC-generated and seeded random programs) must be a behaviour of KV.tla. Trusts TLC, badger and goleveldb below the observed API.')
def k01(run):
    model_check(run, 'MCKV', 'MCKVpoint.cfg')
    beh = generate(run, 'MCKV', 'GenKVpoint.cfg', run.size(60, 1000), 25)
    simple(run, 'dkv', 'KVTrace', ['-in', beh, '-size', str(run.size(2, 20))])


@prop('K02', note='All scan shapes over all populations of a small key universe replayed, plus random populations incl. flushed tables and pending writes; every delivery validated by TLC.')
def k02(run):
    model_check(run, 'MCScan', 'MCScan.cfg')
    beh = generate(run, 'MCScan', run.size('GenScan.cfg', 'GenScanDeep.cfg'), 0, 0, bfs=True)
    simple(run, 'dkv', 'KVTrace', ['-in', beh, '-size', str(run.size(3, 30))])


@prop('K03', note='SSI rules model-checked exhaustively for two transactions; TLC-generated and random interleavings replayed on badger and validated.')
def k03(run):
    model_check(run, 'MCKV', run.size('MCKV.cfg', 'MCKVdeep.cfg'))
    beh = generate(run, 'MCKV', 'GenKV.cfg', run.size(300, 4000), 25)
    simple(run, 'dkv', 'KVTrace', ['-in', beh, '-size', str(run.size(3, 40))])


@prop('K04', level='fault_enumeration', note='Crash images of the open store and cuts of its log at every (thorough) or every few (quick) byte positions; what reopens must be what KV.tla allows. Power-loss reordering below fsync is not modelled.')
def k04(run):
    model_check(run, 'MCKV', 'MCKVpoint.cfg')
    simple(run, 'dkv', 'KVTrace', ['-size', str(run.size(2, 10))])



# ---------------------------------------------------------------- structures

def structures(kind):
    def f(run):
        model_check(run, 'MCStructure', 'MCStructure_%s.cfg' % kind)
        beh = generate(run, 'MCStructure', 'GenStructure_%s.cfg' % kind, run.size(150, 3000), 30)
        simple(run, 'dstruct', 'StructureTrace', ['-in', beh, '-size', str(run.size(3, 40))])
    return f


for _id, _k in (('S01', 'h'), ('S02', 'l'), ('S03', 's')):
    prop(_id, note='The structure laws are checked exhaustively on a small instance; TLC-generated and random programs with up to three concurrent transactions run on badger and every result is validated against Structure.tla.')(structures(_k))


# ---------------------------------------------------------------- sequences

def sequences(run):
    model_check(run, 'MCSequence', run.size('MCSequence_string.cfg', 'MCSequence_stringdeep.cfg'))
    model_check(run, 'MCSequence', run.size('MCSequence_legacy.cfg', 'MCSequence_legacydeep.cfg'))
    n = run.size(150, 3000)
    beh = [generate(run, 'MCSequence', 'GenSequence_%s.cfg' % k, n if k == 'string' else n // 2, 90, name=k) for k in ('string', 'legacy')]
    # the schedules that tell plausible wrong algorithms (adopting a lease too early, ignoring conflicts ...) from the right one
    beh += [generate(run, 'MCSequence', 'GenSequence_%s.cfg' % k, 0, 0, name=k, bfs=True) for k in ('bugs', 'bugsstring')]
    both = os.path.join(run.scratch, 'both.beh')
    with open(both, 'w') as f:
        for b in beh:
            f.write(open(b).read())
    simple(run, 'dseq', 'SequenceTrace', ['-in', both, '-size', str(run.size(3, 40))])


for _id in ('Q01', 'Q02'):
    prop(_id, note='The lease algorithm (calls split into begin and commit, several instances, failing and ambiguous commits, crashes) is model-checked against the observer Sequence.tla; TLC-generated schedules are replayed on the real sequences with a gate before every commit, random interleavings, faults, crashes and truly concurrent callers are recorded, and every history is validated against the same observer.')(sequences)


# ---------------------------------------------------------------- documents

def documents(run, legacy=False):
    model_check(run, 'MCDocument', 'MCDocument.cfg')
    model_check(run, 'MCDocument', 'MCDocument2.cfg')
    if run.tier == 'thorough':
        model_check(run, 'MCDocument', 'MCDocumentdeep.cfg', timeout=3000)
    beh = generate(run, 'MCDocument', 'GenDocument.cfg', run.size(3, 40), 2000)
    simple(run, 'ddoc', 'DocumentTrace', ['-in', beh, '-size', str(run.size(1, 20))])


for _id in ('D01', 'D02', 'D03', 'L01'):
    prop(_id, note='The document-store laws (ids, inserts, reads, deletes, schema checks at commit) are model-checked exhaustively on small instances; TLC-generated and random programs over several transactions, handles and stores run on the real code and every result is validated against Document.tla.')(documents)


# ---------------------------------------------------------------- catalogue and schema

@prop('M03', note='The algorithm of the handle (lock, copy-on-write cache, bounded list of changes) is model-checked step by step with several callers against the rule; TLC-generated and random programs, callers with deadlines and truly concurrent callers run on the real handle and every answer is validated against Handle.tla.')
def m03(run):
    model_check(run, 'MCHandle', run.size('MCHandle.cfg', 'MCHandledeep.cfg'), timeout=3000)
    beh = generate(run, 'MCHandle', 'GenHandle.cfg', run.size(3, 40), 2000)
    simple(run, 'dhandle', 'HandleTrace', ['-in', beh, '-size', str(run.size(2, 30))], cfg='HandleTrace.cfg')


def schema_changes(run, fol=False):
    model_check(run, 'MCDdl', run.size('MCDdl.cfg', 'MCDdldeep.cfg'), timeout=3000)
    size = ['-size', str(run.size(1, 4))]
    beh = generate(run, 'MCDdl', 'GenDdl.cfg', run.size(2, 15), 3000)
    simple(run, 'dddl', 'DdlTrace', ['-in', beh] + size, cfg='DdlTrace.cfg')
    if fol:
        b = build(run, 'dddl')
        t = tr(run, 'follow')
        drive(run, b, ['-follow'] + size, t, timeout=700)
        validate(run, t, 'DdlTrace', cfg='DdlTrace.cfg')


for _id in ('M01', 'M02', 'M04'):
    prop(_id, note='The algorithm (callers and a worker on a store with snapshot transactions, failing operations and commits, crashes) is model-checked step by step against the observer Ddl.tla; TLC-generated schedules are replayed on the real Domain with gates at every begin and commit, every operation of the worker is made to fail, the process is ended before and after every commit, and everything committed, returned and shown by caches is validated against the same observer.')(
        lambda run, fol=(_id == 'M02'): schema_changes(run, fol))


@prop('M05', note='The catalogue laws are model-checked exhaustively on a small instance; TLC-generated and random programs of catalogue operations in committed, discarded and read-only transactions, with reopenings, run on the real code and every result is validated against Catalog.tla.')
def m05(run):
    model_check(run, 'MCCatalog', run.size('MCCatalog.cfg', 'MCCatalogdeep.cfg'))
    beh = generate(run, 'MCCatalog', 'GenCatalog.cfg', run.size(3, 40), 2000)
    simple(run, 'dmeta', 'CatalogTrace', ['-in', beh, '-size', str(run.size(2, 30))])


# ---------------------------------------------------------------- client and server

def remote(run):
    model_check(run, 'MCRemote', run.size('MCRemote.cfg', 'MCRemotedeep.cfg'), timeout=3000)
    beh = generate(run, 'MCRemote', 'GenRemote.cfg', run.size(40, 600), 2000)
    simple(run, 'dremote', 'RemoteTrace', ['-in', beh, '-size', str(run.size(1, 8))], cfg='RemoteTrace.cfg')
    if run.prop != 'R01':
        simple(run, 'dremote', 'SessionTrace', ['-prop', 'wire', '-size', str(run.size(1, 12))], name='wire')


for _id in ('R01', 'R02', 'R03'):
    prop(_id, note='The rules of sessions, transactions and breakage (Remote.tla) are model-checked exhaustively on small instances; TLC-generated and random programs of several clients (the package client and a raw one written from the protocol, through a proxy that cuts connections before, within and after requests) run against real servers in the process and in processes of their own, and every answer, every dump of the store and every count of open server transactions is validated against Remote.tla.')(remote)


@prop('R04', note='The algorithm of the server and of the library under it is model-checked frame by frame (handlers, half-closed streams, connections that go at any moment, Stop), with liveness, against Session.tla; random bursts of frames of many streams on several raw connections, with nonsense, cuts within what was sent and stops, go to real servers, and every frame, every answer, every count of open transactions and what is in the store afterwards is validated against Session.tla; transactions of the package client, pipelined, parallel, broken and stopped, against Remote.tla.')
def r04(run):
    model_check(run, 'MCSession', run.size('MCSession.cfg', 'MCSessiondeep.cfg'), timeout=3000)
    simple(run, 'dremote', 'SessionTrace', ['-prop', 'wire', '-size', str(run.size(4, 60))], name='wire')
    simple(run, 'dremote', 'RemoteTrace', ['-size', str(run.size(1, 8))], cfg='RemoteTrace.cfg')


# ---------------------------------------------------------------- the legacy database

@prop('L02', note='The algorithm of the index calls (lock, snapshot transactions, cache) is model-checked step by step with several callers, failures and restarts against Index.tla; TLC-generated and random programs, operations failing at every access, concurrent callers and restarts run on the real database, and every commit, every answer, what collections show and what a fresh database reads are validated against Index.tla.')
def l02(run):
    model_check(run, 'MCIndex', run.size('MCIndex.cfg', 'MCIndexdeep.cfg'), timeout=3000)
    if run.tier == 'thorough':
        model_check(run, 'MCIndex', 'MCIndexlong.cfg', timeout=3000)
    beh = generate(run, 'MCIndex', 'GenIndex.cfg', run.size(3, 40), 2000)
    simple(run, 'dlegacy', 'IndexTrace', ['-in', beh, '-size', str(run.size(1, 15))])


@prop('L03', note='The algorithm (state, closer, lock of the names, Close called by several) is model-checked step by step, with liveness, against Closing.tla; on the real database every operation is held at each of its store accesses while Close is called, storms of callers are closed at random moments, names are first used by many callers at once and with failures, and every access, commit, answer and image of the store is validated against Closing.tla.')
def l03(run):
    model_check(run, 'MCClosing', 'MCClosing.cfg')
    if run.size(0, 1):
        model_check(run, 'MCClosing', 'MCClosingdeep.cfg', timeout=3000)
    simple(run, 'dlegacy', 'ClosingTrace', ['-size', str(run.size(1, 15))])


# ---------------------------------------------------------------- transaction helpers

@prop('U01', note='The algorithms of the helpers are model-checked step by step (every outcome of the function and of commits, several capacities) against Helpers.tla, with the law that the steps of one piece of work are kept once each, in order; TLC-generated and random programs run on the real helpers (functions that succeed, fail, panic or never fit, transactions of scripted and of the store\'s own capacity, failing commits), and every begin, run of the function, commit, discard, callback, result and the content of the store is validated against Helpers.tla.')
def u01(run):
    model_check(run, 'MCHelpers', run.size('MCHelpers.cfg', 'MCHelpersdeep.cfg'), timeout=3000)
    beh = generate(run, 'MCHelpers', 'GenHelpers.cfg', run.size(4, 100), 1000)
    simple(run, 'dhelpers', 'HelpersTrace', ['-in', beh, '-size', str(run.size(1, 20))], cfg='HelpersTrace.cfg')


# ---------------------------------------------------------------- codecs

def codecs(cfg):
    def f(run):
        model_check(run, 'MCCodec', 'MCCodec.cfg')
        model_check(run, 'MCCodec', 'MCCodecDec.cfg')
        vals = generate(run, 'MCCodec', 'GenCodec.cfg', 0, 0, bfs=True)
        simple(run, 'dcodec', 'CodecTrace', ['-in', vals, '-size', str(run.size(5, 40))])
    return f


for _id in ('C01', 'C02', 'C03'):
    prop(_id, note='The formats are checked exhaustively over a small alphabet and group size in Codec.tla; the real codecs are run on TLC-enumerated boundary values, malformed inputs and random ones and each recorded value/encoding/outcome is checked by TLC. NaN is outside the property.')(codecs(_id))
