#!/usr/bin/env python3
"""Writes properties.jsonl.  The text lives here because one JSON object per line is unreadable to edit."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        'id': id, 'title': title, 'statement': ' '.join(statement.split()),
        'quantifier': {'over': over, 'text': ' '.join(text.split())},
        'why_tests_cant': ' '.join(why.split()),
        'anchors': {
            'files': files,
            'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
            'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
            'observe_at': list(observe), 'hook_needed': None}})


CD, DJ = 'cache_dependencies/', 'django_cache_dependencies/'

prop('C01', 'An invalidation reaches every entry that depends on the tag',
     """Once an invalidation of a set of tags has returned, no read (single, batched or get-or-compute) on any cache
     object of any process or thread that shares the store returns an entry stored earlier with one of those tags,
     in whatever form the tags of the entry and of the invalidation were given.  This holds however often the tags
     were invalidated, re-created, evicted or expired before, and however many entries and tags are involved; the
     entry is readable again only after it is stored anew.""",
     ['histories', 'inputs'],
     """every sequence, up to the depth bound, of stores, native stores, deletes, invalidations, evictions of tag
     records, clock advances and reads, over colliding keys and tags, on two cache objects sharing one store""",
     """The tests walk a handful of fixed set/invalidate/get scripts on one cache object; whether a tag record that
     was dropped, evicted, expired and re-created can ever make an old entry current again depends on the whole
     history.""",
     [CD + 'cache.py', CD + 'tagging.py', CD + 'dependencies.py', CD + 'defer.py', CD + 'utils.py'],
     [('fresh unique version for every re-created tag', CD + 'utils.py generate_tag_version'),
      ('comparison of stored and current tag versions on every read', CD + 'dependencies.py TagsDependency.validate'),
      ('deletion of the tag records', CD + 'dependencies.py TagsDependency.invalidate')],
     [('tag record', 'current version of a tag, in the cache itself', CD + 'dependencies.py'),
      ('packed entry', 'value plus the versions of its tags at store time', CD + 'cache.py _pack_data')],
     ['cache.get', 'cache.get_many', 'cache.get_or_set_callback'])

prop('C02', 'An entry that nothing invalidated stays readable, unchanged',
     """Outside concurrent transactions, a stored entry is returned by every read with exactly the value that was
     stored (falsy and None values, empty containers and natively stored data included) until it is overwritten,
     deleted, invalidated through one of its own tags or those of its fragments, or its timeout has passed, provided
     that neither the entry nor its tag records are evicted by the backend or older than a day.  In particular
     invalidating other tags (with a common prefix, a different type or letter case), or storing other entries that
     share its tags, never removes it, also not when that or a read of any entry runs at the same time in another thread
     (except stores racing with it for the creation of a tag's record); after any of the listed events the read yields the caller's default and the
     batched read omits the key.""",
     ['histories', 'inputs'],
     """the same histories as C01, compared step by step with a reference map of entries; every value of a small set
     of awkward values through every storing and reading call; all schedules of pairs of calls and programs on two threads""",
     """A cache that drops too much passes nearly every invalidation test; precision is only visible over histories
     in which several entries share tags and unrelated tags are invalidated in between.""",
     [CD + 'cache.py', CD + 'tagging.py', CD + 'dependencies.py', CD + 'utils.py'],
     [('tag versions are created only when missing', CD + 'dependencies.py TagsDependency.evaluate'),
      ('packing and unpacking of values', CD + 'cache.py _pack_data/_unpack_data'),
      ('tag key derivation', CD + 'utils.py make_tag_key')],
     (), ['cache.get', 'cache.get_many', 'backend store'])

prop('C03', 'A composite entry inherits the dependencies of its fragments',
     """When an entry is built while other entries are read or built inside it (between its miss and its store), it
     also depends on the tags of every such fragment, at any nesting depth and in any order, whether the fragment was
     a hit, was rebuilt, was obtained by a batched read or by get-or-compute; invalidating any of those tags makes the
     composite unreadable.  An entry never receives tags of fragments that were finished before its own building
     began, of siblings, of fragments read with the inheritance switched off for that call, or of anything read or built
     while the inheritance is switched off for the cache object.  A build that is aborted or whose compute function raises leaves nothing behind that changes what later
     entries inherit.""",
     ['programs', 'histories'],
     """every well-bracketed building program up to the size bound: trees of fragments, each a hit, a miss and store,
     an abort, a read with inheritance off, a get-or-compute (returning, raising) or a batched read, repeated names
     included; then every single tag is invalidated and every entry is read""",
     """The tests build two fixed nestings; inheritance is a property of every shape of the call tree and of what
     was left in the per-thread bookkeeping by earlier builds.""",
     [CD + 'relations.py', CD + 'cache.py', CD + 'tagging.py', CD + 'dependencies.py'],
     [('per-thread stack of entries under construction', CD + 'relations.py RelationManager'),
      ('propagation to all ancestors', CD + 'relations.py CacheNode.add_dependency'),
      ('merging of dependencies', CD + 'dependencies.py CompositeDependency.extend')],
     [('current node', 'the entry being built in this thread', CD + 'relations.py')],
     ['cache.get after invalidating each tag'])

prop('C04', 'No interleaving lets an entry survive an invalidation it depends on',
     """For every interleaving of concurrent readers, builders and invalidators on the shared backend, an entry whose
     store call had returned before an invalidation of one of its tags began is never returned by a read that begins
     after that invalidation returned, and a read never returns a value that was never stored under the key or that
     a completed overwrite superseded.  When all activity has ceased, an entry and its tags work normally: a new store is
     readable and a new invalidation removes it.""",
     ['schedules'],
     """all interleavings, at the granularity of individual backend operations, of 2 and 3 threads with 1 to 3 API
     calls each on colliding keys and tags, all schedules up to the preemption bound""",
     """The test-suite is single threaded; an interleaving between the reads and writes of tag records and entries
     can only be settled by trying all of them.""",
     [CD + 'cache.py', CD + 'dependencies.py', CD + 'defer.py'],
     [('order of reading tag versions, creating them and writing the entry', CD + 'cache.py set'),
      ('validation against current versions on each read', CD + 'cache.py get, get_many')],
     (), ['cache.get/get_many results against the recorded call intervals'])

prop('C05', 'No outdated entry outlives a write transaction (repeatable read)',
     """With isolation level REPEATABLE READ or SERIALIZABLE, and readers that compute and store entries within their
     own cache transaction, no entry computed from data as it was before a concurrent writer's commit is readable once
     that writer's outermost transaction has ended, provided the writer invalidated the entry's tag within its
     transaction at any time before or after its data change, and ended its cache transaction after its database
     commit or rollback, and the readers store within the life time of the lock record (about five seconds).  This covers reader transactions whose database snapshot is older than the commit, replicas
     that lag behind by at most the configured delay, savepoints of any nesting, and entries stored by the writer
     itself, if the writer rolls back.""",
     ['schedules', 'histories'],
     """all interleavings (at backend-operation, database-operation and clock granularity, up to the preemption
     bound) of one or two writers and one or two reader transactions on a versioned database, with and without
     replication lag, with savepoints, rollback, long-running writers and both strictly increasing and
     coarse clocks""",
     """The tests run a fixed order of events with two threads and real sleeps; that no order at all leaves a stale
     entry behind is a statement about all schedules, snapshot ages and clock values.""",
     [CD + 'locks.py', CD + 'dependencies.py', CD + 'transaction.py', CD + 'cache.py'],
     [('acquired and released tag states', CD + 'dependencies.py AcquiredTagState, ReleasedTagState'),
      ('lock check when an entry is stored', CD + 'dependencies.py TagsDependency.evaluate'),
      ('transaction start and end times', CD + 'transaction.py')],
     [('lock record', 'who invalidated the tag in an open transaction, and when the last one ended',
       CD + 'dependencies.py')],
     ['cache.get after the writer has finished'])

prop('C06', 'The end of the outermost transaction invalidates its tags again',
     """With isolation level READ COMMITTED, REPEATABLE READ or SERIALIZABLE, when the outermost transaction of a
     thread ends, in whichever way it is ended, every entry depending on a tag invalidated inside it (in any nested
     scope, of any cache version) that was stored before that end is unreadable afterwards, no matter who stored it.
     With READ COMMITTED and a configured delay, the same invalidation happens once more when the delay has passed, and
     with READ UNCOMMITTED and a delay it happens then, also if the program comes to its end (by returning, sys.exit
     or an unhandled error) before.  Ending an inner scope does not end the transaction, and tags
     invalidated outside any transaction or in an earlier one are not invalidated again.""",
     ['histories', 'configurations'],
     """every history up to the depth bound of begin, finish, flush, close, invalidations (several tags, two
     versions), stores by the own and another session, and clock advances, for each isolation level with and without
     delay""",
     """The tests call begin, invalidate and finish in one order for one level each; which tags are repeated at which
     end is a property of every nesting history.""",
     [CD + 'transaction.py', CD + 'locks.py', CD + 'dependencies.py'],
     [('collection of dependencies per version on the whole stack', CD + 'transaction.py add_dependency'),
      ('release of the lock at the end', CD + 'locks.py'),
      ('delayed second invalidation', CD + 'locks.py ReadUncommittedDependencyLock')],
     (), ['cache.get by every session after the end, and after the delay'])

prop('C07', 'A transaction fences its tags against other sessions, and only those',
     """With isolation level REPEATABLE READ or SERIALIZABLE, from an invalidation inside a transaction until that
     transaction has ended no other session can store an entry depending on the tag (what others had stored, or were just
     storing when it was invalidated, is unreadable), and neither can, after the end,
     a transaction that was open at the end or began within the delay after it; such a store leaves
     the previous content unchanged and does not raise.  The fence stands for the life time of the lock record (about
     five seconds since the last invalidation, or since the end plus the delay), so that a lock left behind by a writer that
     died vanishes by itself; of several open transactions that invalidated the tag the latest holds it.  A session
     is never refused on account of its own invalidations while its transaction is open, entries on other tags are never
     refused, and a transaction begun after the end and the delay can store at once.""",
     ['histories', 'schedules', 'configurations'],
     """every history up to the depth bound of begin, invalidate, finish, store by three sessions on two tags with
     clock advances in between, against a reference model of the fence, for delay 0 and a positive delay and for two
     cache versions""",
     """The tests check single hand-made lock states with mocks; whether the fence is complete, precise and
     temporary over the interplay of several sessions and times needs the full state space.""",
     [CD + 'dependencies.py', CD + 'locks.py', CD + 'transaction.py'],
     [('lock records with session and time', CD + 'dependencies.py AcquiredTagState, ReleasedTagState'),
      ('limited life of lock records', CD + 'dependencies.py TAG_STATE_TIMEOUT'),
      ('refused store is swallowed', CD + 'cache.py set')],
     (), ['whether a store took effect, by reading it back'])

prop('C08', 'Transaction scopes nest, and every way of leaving one closes it',
     """Every begin is matched by exactly one end: leaving a with-block or a decorated function, normally or by any
     exception, closes exactly that scope and lets the exception and the return value pass unchanged; flush and
     closing the cache at the end of a request close all scopes of the calling thread and none of another thread.
     Ending with no open scope is harmless (an explicit end inside a with-block ends the innermost open scope).  A decorated function keeps its name and works on every call, for
     recursive calls, and in every thread; the deprecated spellings behave like the new ones.""",
     ['programs', 'histories'],
     """every program up to the depth bound built of begin, finish, flush, with-blocks, decorated calls (all
     documented spellings), exceptions, close and recursion; after each step the number of open scopes is observed
     through the isolation behaviour""",
     """The tests mock the transaction objects and check single calls.""",
     [CD + 'transaction.py', CD + 'tagging.py', DJ + 'decorators.py', DJ + '__init__.py'],
     [('stack of transactions and savepoints', CD + 'transaction.py TransactionManager'),
      ('context manager and decorator', CD + 'transaction.py AbstractTransactionManager'),
      ('deprecated decorators', DJ + 'decorators.py cache_transaction, cache_transaction_all')],
     (), ['cache.transaction.current()', 'visibility of lock effects to another session'])

prop('C09', 'Threads do not disturb each other through shared objects',
     """What one thread builds, reads, aborts or does in its transactions never changes which tags another thread's
     entries receive or which transaction it is in, for every interleaving down to single statements.  The cache collection gives each thread its own
     cache object, always the same one for the same alias, and a cache object used from a foreign thread refuses the
     call with an error instead of mixing the bookkeeping.  A connection to the cache server that was opened in one
     thread is never used by another (delayed invalidations included).  The same holds where threads share a
     compiled template, a middleware object, a decorated view or function, or the handler of uncached islands.""",
     ['schedules'],
     """all interleavings up to the preemption bound, at statement granularity inside the repository, of two
     threads that build nested entries and run transactions through the shared collection; every public operation
     on a foreign thread's object""",
     """The tests start threads in one order; races inside the bookkeeping need every statement-level schedule.""",
     [DJ + '__init__.py', CD + 'mixins.py', CD + 'relations.py', CD + 'transaction.py', CD + 'utils.py'],
     [('thread-local collection of caches', DJ + '__init__.py CacheCollection'),
      ('thread check', CD + 'mixins.py ThreadSafeDecoratorMixIn')],
     (), ['tags inherited by each thread, errors raised'])

prop('C10', 'Reading many entries at once gives the verdict of reading each alone',
     """For every set of entries, stored natively, without tags, with tags, with nested composites or with an
     arbitrary dependency object, any part of which is invalid, missing or expired, a batched read returns exactly
     the entries, with exactly the values, that individual reads would return; the same holds for an entry that
     carries several dependencies.  Checking the tags takes a bounded number of backend round trips: one for the
     entries and one for all tags, however many there are.""",
     ['inputs', 'histories'],
     """every assignment of kinds, shared and distinct tags and invalidity to up to four keys, every order of keys, every
     iterable type; every tree of deferred computations up to the size bound against direct evaluation""",
     """The aggregation of deferred results relies on queues being consumed in an exact order; the tests use one
     arrangement of valid and invalid entries.""",
     [CD + 'defer.py', CD + 'cache.py', CD + 'dependencies.py'],
     [('aggregation of deferred queries and ordered consumption', CD + 'defer.py'),
      ('mapping of failures back to keys', CD + 'cache.py get_many'),
      ('collection of errors', CD + 'dependencies.py CompositeDependency.validate')],
     (), ['cache.get_many against cache.get', 'number of backend calls'])

prop('C11', 'Dependency objects belong to the caller and are interchangeable',
     """A dependency object, or a collection of tags, passed to a store, an invalidation or a get-or-compute call is never altered by it and
     may be reused for any number of entries and invalidations; later changes by the caller do not reach
    stored entries, and a dependency built from a collection of tags does not follow later changes of the collection.
     Combined dependencies, of any nesting, make an entry depend on each of their parts, also when the parts overlap,
     are empty or of an application-defined kind, and invalidating a combined dependency invalidates each part.""",
     ['inputs', 'histories'],
     """every dependency tree up to the size bound over two tags, empty parts and an application-defined dependency, used
     in every order for stores and invalidations through both interfaces; the objects are compared before and after""",
     """The tests build each dependency for one use.""",
     [CD + 'dependencies.py', CD + 'cache.py', CD + 'tagging.py', CD + 'relations.py', CD + 'transaction.py'],
     [('copying when dependencies are merged', CD + 'dependencies.py extend, __copy__')],
     (), ['the object after the call', 'validity of the other entries'])

prop('C12', 'Cache versions and aliases are separate worlds',
     """Entries, tags, inherited tags and tag locks of one explicit cache version never influence those of another, and a
     default version (none given) behaves consistently for stores, reads and invalidations, within one nested build as
     long as it is not spelled once explicitly and once implicitly.  Two aliases with different stores are
     independent in the same way; the same alias always means the same store, transaction and settings within a
     thread.""",
     ['histories', 'configurations'],
     """every history up to the depth bound of stores, invalidations, reads, nested builds and transactions over two
     versions and two aliases, against independent reference models""",
     """The tests use version 1 or none.""",
     [CD + 'cache.py', CD + 'dependencies.py', CD + 'relations.py', CD + 'transaction.py', DJ + '__init__.py'],
     [('dependencies kept per version', CD + 'relations.py CacheNode, transaction.py Transaction'),
      ('version passed to each backend call', CD + 'dependencies.py')],
     (), ['cache.get per version and alias'])

prop('C13', 'A cached page is served only while all its tags hold',
     """A page stored by the page cache (decorator or middleware pair) is served only to requests it was stored for (same
     address, method class and values of the varying headers), and never after an invalidation of a tag given for the
     view, added by a template fragment or request, or belonging to a fragment of the same cache alias read or built while the page was
     rendered; an unaffected page continues to be served from the cache, but not after its timeout (the max-age of the response, or that of the view or middleware).  Only successful GET and HEAD responses
     that were not prevented from being cached are stored.""",
     ['histories'],
     """every history up to the depth bound of GET and HEAD requests with two values of a varying header, POSTs, error
     responses, prevented pages, fragment and tag invalidations, against a view that reveals the data version it was
     built from""",
     """The tests request one page, invalidate and request again.""",
     [DJ + 'middleware.py', DJ + 'decorators.py', DJ + 'utils.py'],
     [('tags of page and request merged', DJ + 'middleware.py process_response'),
      ('tagged list of varying headers', DJ + 'utils.py learn_cache_key')],
     (), ['responses, against the current data'])

prop('C14', 'A cached template fragment tracks all tags of its body',
     """A fragment cached by the template tag is never served after invalidation of a tag listed in the tag, passed as a
     list, added anywhere inside its body (also within nested blocks, loops and nested fragments) or belonging to a
     nested fragment; tags of an inner fragment or of a later sibling do not disturb the collection of the outer one, and a
     fragment never depends on tags of fragments it does not contain.  Prevention
     inside the body, at whatever nesting, keeps the fragment and all enclosing ones, and the page, from being stored,
     and no other fragment.  (A template included with "only" is a rendering of its own.)""",
     ['programs', 'histories'],
     """every template up to the size bound generated from the grammar of nested fragments, added tags, prevention, with,
     for and if blocks; each rendered cold and warm, with every tag invalidated in turn""",
     """The tests render two fixed templates.""",
     [DJ + 'templatetags/cache_tagging_tags.py'],
     [('tag collection in the rendering context', DJ + 'templatetags/cache_tagging_tags.py CacheNode.render'),
      ('prevention flag', DJ + 'templatetags/cache_tagging_tags.py cache_tagging_prevent')],
     (), ['rendered output, against current data'])

prop('C15', 'Uncached islands run afresh each time, the rest is left alone',
     """Text processed for uncached islands comes out identical outside the islands, and each island, alone, adjacent or
     produced by another island, is replaced by exactly what its code prints when run with the variables given at the
     start marker and those of the current call.  The data travels from the start marker to the code unchanged for
     every picklable value, and text without the secret is never executed.  (Common indentation, trailing spaces and
     blank lines of the code of an island are not significant.)""",
     ['inputs'],
     """every text up to the size bound composed of plain text, island markers with and without the secret, nested and
     adjacent islands, indented multi-line code, and awkward data values""",
     """One example island is tested.""",
     [CD + 'nocache.py', DJ + 'templatetags/cache_tagging_tags.py'],
     [('marker pattern and substitution', CD + 'nocache.py handle'),
      ('transport of data', CD + 'nocache.py pickle, unpickle')],
     (), ['NoCache.handle output'])

prop('C16', 'Saving or deleting a registered model invalidates exactly its tags',
     """For every registered handler, in each documented form (all signal arguments or only the object, one tag or
     several, with or without alias or cache object), each save and each delete of an instance of the registered model
     invalidates exactly the tags the function yields for that instance, in the registered cache and no other; several
     registrations for the same model all take effect, and unregistered models invalidate nothing.  (A cache object given at registration is used in its own thread.)""",
     ['histories', 'inputs'],
     """every combination of up to two registrations over the forms, followed by every history up to the bound of saves
     and deletes of two models""",
     """One registration is tested.""",
     [DJ + '__init__.py'],
     [('signal handlers', DJ + '__init__.py CacheRegistry.register'),
      ('evaluation of the tag function', DJ + '__init__.py _clear_cached')],
     (), ['which entries survive'])

prop('C17', 'The file backend shows whole entries only, at any moment and crash',
     """With the file cache backend, a read that runs concurrently with stores of the same key or that follows a
     crash of the process at any point of a store sees either the previous or the new value, complete and with its own expiry, and
     never a mixture, a partial value or an error.  What has been stored is readable until it expires, by every
     process; a store that fails leaves the previous entry in place.""",
     ['crash_points', 'schedules', 'fault_sequences'],
     """a crash, or an I/O error, at every system call of a store, every torn write length class, and a concurrent
     reader at each of these points, for new and existing keys""",
     """The file backend has no test at all.""",
     [DJ + 'backends.py'],
     [('write to a temporary file, then rename', DJ + 'backends.py set')],
     [('cache file', 'expiry and value of one entry', DJ + 'backends.py')],
     ['cache.get in the same and another process'])

prop('C18', 'An adapter that offers get, set and delete gets the whole contract',
     """A cache built on the adapter base class from single-key get, set, add, delete and clear behaves like a map with
     versions for all derived operations (batched get, set and delete, counters, membership, version moves), for every
     history of values other than None, and a counter or version change of a missing key raises and alters nothing.  Tagging on top of such
     an adapter works as on a native backend.  Key validation warns for unportable keys and never fails.""",
     ['histories', 'inputs'],
     """every history up to the depth bound over two keys and two versions against a dictionary; all single-character
     classes and lengths around the limit for key validation""",
     """The derived operations are untested.""",
     [CD + 'cache.py'],
     [('derived operations', CD + 'cache.py AbstractCache')],
     (), ['results and contents after each operation'])

prop('C19', 'A failing or forgetful backend never brings stale data back',
     """If any backend call fails once, before or after taking effect, or the backend forgets any record at any time, then
     afterwards no read returns an entry depending on a tag whose invalidation was reported complete.  The
     per-thread bookkeeping stays usable: later stores, invalidations, nested builds and transactions behave as in
     a fresh process once the failed operation has been abandoned and the cache closed as at the end of a request.""",
     ['fault_sequences', 'histories'],
     """each scenario of stores, builds, invalidations and transactions with a failure at every backend call (before and
     after its effect) and eviction of every single record at every point""",
     """No test injects a backend failure.""",
     [CD + 'cache.py', CD + 'transaction.py', CD + 'relations.py', CD + 'dependencies.py'],
     [('validity is decided by presence of equal versions', CD + 'dependencies.py'),
      ('cleanup', CD + 'cache.py close, set')],
     (), ['cache.get after the fault'])

prop('C20', 'Sessions are distinguished across threads, processes and forks',
     """Two threads that are alive at the same time, in the same or in different processes, on one host or on several that share a cache server, including a process
     forked from one that has already used the cache, are never taken for the same session, and one thread is always the
     same session throughout its life.  Tag versions generated by any of them at the same instant are never equal (the operating system's random source
     is not inherited by a fork).""",
     ['histories', 'programs'],
     """all small trees of forks and threads, with the session used or not used before each fork, and equally numbered threads and processes on two hosts; the effect is observed
     through tag locks and generated versions under a frozen clock""",
     """The tests never fork.""",
     [CD + 'utils.py', CD + 'transaction.py', CD + 'dependencies.py'],
     [('session id', CD + 'utils.py get_thread_id'), ('version generator', CD + 'utils.py generate_tag_version')],
     (), ['whether one session is fenced off by the other'])

prop('C21', 'Each request has its own transaction and bookkeeping, always closed',
     """With the transaction middleware, each request runs in one transaction that is open while the view runs and closed,
     with all scopes opened inside, before the response leaves or the exception propagates, for a view that returns or raises in
     whichever state; the end of each request leaves the thread's caches as new.  Whatever a
     request did, aborted builds and unclosed scopes included, has no influence on the tags or transaction of the next one.""",
     ['histories', 'programs'],
     """every sequence up to the bound of requests with views that invalidate, nest, leave scopes or builds open, return or
     raise, through the middleware in both calling styles""",
     """The tests do not exercise the middleware with failing or sloppy views.""",
     [DJ + 'middleware.py', DJ + '__init__.py', CD + 'cache.py'],
     [('transaction middleware', DJ + 'middleware.py TransactionMiddleware'),
      ('closing at the end of request', DJ + '__init__.py close_caches, cache.py close')],
     (), ['isolation behaviour during and after the request'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
