"""Text of the properties (properties.jsonl and MANIFEST.json are generated from it by mk.py)."""
BASE_NOTE = "Every obligation is discharged for all inputs of the stated contract. Trusted: the clang 18 front end (C++ to LLVM IR), the VC generator in irv/, z3/cvc5, and the contracts of runtime and standard library functions listed in the evidence file. "
def inputs(t, *more): return dict(over=["inputs"] + list(more), text=t)
def anchors(files, **mech): return dict(files=files, mechanism=[dict(name=k.replace("_", " "), where=v) for k, v in mech.items()])
CONT = ["storage/container/dictionary.h", "storage/container/one_to_one.h", "storage/container/one_to_many.h", "storage/container/many_to_many.h", "storage/base.h"]
DEFS = [
 dict(id="S01", title="Every storage mutation leaves all views of a container consistent",
  statement="Adding or erasing an entry of a dictionary, one-to-one, one-to-many or many-to-many storage container changes exactly what its relation requires: the entry itself and, for the one-to-one and one-to-many relations, the entries it conflicts with. Afterwards lookup by key pair, by row, by column, iteration, sizes and emptiness all describe the same set of entries, every other entry is untouched, and the last-modified time of exactly the added and erased keys is the time of the mutation.",
  quantifier=inputs("every reachable content of the container, every key and entry value, present or absent, and every clock reading", "histories"),
  why="The tests run a few fixed sequences on a handful of keys; the views are separate maps kept in step by hand, so every combination of present row, present column and conflicting entry matters.",
  anchors=anchors(CONT, relation_mutations="storage/container/*.h: Add, Erase, DoUpdateWithLastModified, DoEraseWithLastModified", views="storage/container/*.h: forward_, transposed_, map_, last_modified_"),
  note=BASE_NOTE + "std::unordered_map is used through its contract (finite map); the unordered containers are verified, the ordered variants share the code. A container state is arbitrary: the entries the operation can reach are decided, the rest is an arbitrary untouched remainder."),
 dict(id="S02", title="Rolling back a transaction restores the storage exactly",
  statement="Rolling back after any mutation of a storage container restores every observable of the container, including entry contents, row and column views, sizes and last-modified times (present or absent), to what it was before the mutation. Rollbacks run in the reverse order of the mutations and leave nothing to be persisted.",
  quantifier=inputs("every content of the container, every mutation and key, every clock reading", "histories"),
  why="Tests roll back a few fixed sequences; each mutation has several undo variants that depend on which conflicting entries existed and on whether the key was ever modified before.",
  anchors=anchors(CONT, undo_log="storage/base.h: MutationJournal::LogMutation, Rollback", undo_closures="storage/container/*.h: rollback lambdas given to LogMutation"),
  note=BASE_NOTE + "One mutation followed by its rollback is proved for an arbitrary state; the order of rollbacks in a longer transaction is proved for the journal itself."),
 dict(id="S03", title="Replaying persisted mutations reproduces the storage",
  statement="Applying the mutations which a storage operation persisted, in the order in which they were persisted, to a container with the same content as the original had before the operation gives a container with the same observable content as the original has after it: the same entries, row and column views, sizes and last-modified times. The persisted events carry the entry or key and the time of the mutation.",
  quantifier=inputs("every content of the container, every mutation and key, every clock reading", "histories"),
  why="A follower or a restarted master is rebuilt from the log only; tests replay a few fixed logs, and an event missing for one conflicting entry shows only in the combination of keys that conflicts.",
  anchors=anchors(CONT, persisted_events="storage/container/*.h: UPDATE_EVENT, DELETE_EVENT passed to LogMutation", replay="storage/container/*.h: operator()(const UPDATE_EVENT&), operator()(const DELETE_EVENT&)"),
  note=BASE_NOTE + "Proved per operation from equal arbitrary states, which gives the whole log by induction over the operations."),
 dict(id="S04", title="Storage transactions are atomic and report their outcome",
  statement="A read-write transaction that returns normally is persisted exactly once, with exactly the mutations it made, and its result is delivered as committed; one that throws (a rollback request with or without a value, or any other exception) leaves the storage exactly as it was, persists nothing, and delivers the rollback or the exception to its caller. The transaction function runs at most once and only under the lock of the storage; transactions of a storage that is shutting down, and read-write transactions of a follower, are refused without being run, and a read-only transaction persists nothing.",
  quantifier=inputs("every content, every combination of up to two mutations, every way of leaving the transaction, every returned or thrown value, every gate", "histories"),
  why="The outcome depends on the combination of how the function leaves, what it mutated before leaving and the overload used; tests use a few fixed transactions.",
  anchors=anchors(["storage/transaction_policy.h", "storage/transaction.h", "storage/storage.h", "storage/base.h", "storage/transaction_result.h"], policy="storage/transaction_policy.h: Synchronous::Transaction", journal="storage/base.h: MutationJournal"),
  note=BASE_NOTE + "The stream persister below the policy is represented by its contract (publishes the journal as one entry, then clears it); std::future/promise, exception_ptr and std::map are used through contracts. One known finding: an exception of the second step of a two-step transaction is reported although the transaction was committed and persisted."),
 dict(id="P01", title="In-memory persister: an append-only, consistently indexed log",
  statement="Publishing to the in-memory persister appends exactly one entry with the next index and the given timestamp when that timestamp is above the head, and otherwise throws and changes nothing; entries already published never change, and the head never moves back. Size, emptiness, head, last entry and the iterators over index and timestamp ranges describe the log of one moment and yield exactly the entries asked for, whatever other threads publish in the meantime; all shared state is accessed under its mutex, and changed only under the mutex that subscribers wait on.",
  quantifier=inputs("every content (any number of entries), every timestamp, entry, range bound and stored line", "schedules"),
  why="Tests publish a few entries from one thread; ranges, heads ahead of the last entry and publishing between the steps of a query are quantified over all contents and interleavings.",
  anchors=anchors(["blocks/persistence/memory.h", "blocks/ss/persister.h", "blocks/ss/idx_ts.h"], publish="blocks/persistence/memory.h: PersisterPublishImpl, PersisterPublishUnsafeImpl, PersisterUpdateHeadImpl", ranges="blocks/persistence/memory.h: PersisterIndexRangeByTimestampRangeImpl, PersisterIterateImpl"),
  note=BASE_NOTE + "std::deque and the binary searches over it are used through their contracts (a sequence of arbitrary length), JSON parsing of a stored line through a contract (any value or an exception). Interference: whenever this thread holds neither lock, other threads may publish any number of entries and move the head. Deadlock freedom and liveness are not claimed."),
 dict(id="W01", title="Waitable values: exclusion, no lost wake-up, no access after destruction",
  statement="A waitable value is read and modified only under its lock, and every modification that is made, also by a function that throws, is followed by a notification of all the waiting threads. A wait returns true only for a value for which its predicate held under the lock, a timed wait otherwise returns false, and an intrusive value being destructed first aborts all waits, refuses new clients and waits for the last client, none of which touches it afterwards; a terminable wait ends only once its condition holds or termination was requested, sleeps for bounded times only, and tells which of the two it was.",
  quantifier=inputs("every value, every predicate and function applied to it, every number of clients", "schedules"),
  why="A missed notification or a late access shows only in one interleaving of two threads; tests run a few schedules that the machine happens to produce.",
  anchors=anchors(["bricks/sync/waitable_atomic.h", "bricks/util/waitable_terminate_signal.h"], accessors="bricks/sync/waitable_atomic.h: BasicImpl (ScopedAccessor, SetValue, MutableUse, Wait, WaitFor)", intrusive="bricks/sync/waitable_atomic.h: IntrusiveImpl", terminate="bricks/util/waitable_terminate_signal.h: WaitableTerminateSignal, WaitableTerminateSignalBulkNotifier"),
  note=BASE_NOTE + "Interference: whenever this thread does not hold the lock the value, the number of clients and the destruction flag may change as other threads can change them. Condition variables are used through their contract (release, sleep, reacquire, spurious wake-ups included). The bulk notifier is bounded (three signals). Deadlock freedom and liveness are not claimed."),
 dict(id="O01", title="Owned and borrowed objects: exact registration, owner outlives borrowers",
  statement="Borrowing an owned object registers exactly one borrower under a key no other borrower ever had; moving a borrower keeps its one registration, and leaving the scope, resetting or being assigned over releases it exactly once, after which it is not valid and does not use the object. An owner being destructed marks the object, tells every borrower once without holding the lock, and destroys the object only after the last borrower has left, none of which touches it afterwards; moving an owner leaves the object and its borrowers as they are, and exclusive use runs under the lock.",
  quantifier=inputs("every number of other borrowers, every order of borrowing, moving, releasing and destructing", "schedules"),
  why="A leaked registration makes an owner wait forever and a late access is a use after free; both need a particular combination of moves or an interleaving of owner and last borrower.",
  anchors=anchors(["bricks/sync/owned_borrowed.h"], registration="bricks/sync/owned_borrowed.h: UniqueInstance, WeakBorrowed", owner="bricks/sync/owned_borrowed.h: Owned, ~UniqueInstance"),
  note=BASE_NOTE + "Interference: whenever this thread does not hold the lock, other borrowers come and go, and a dying owner may free the object once no borrower is left. std::map is used through its contract (finite map), except in the destruction contract, which is bounded (at most three borrowers). Precondition: a borrower is not constructed by moving from an owner or from a borrower that is not valid. One known finding: the callback of a borrower may be called after that borrower left, when it leaves while the owner is telling the others."),
 dict(id="T01", title="The clock is strictly increasing across threads",
  statement="Every reading of the current time is greater than all readings completed before it, and no two readings are equal, in any thread and whichever way the system clock jumps; a reading is that of the system clock when it is ahead and otherwise the next value, and waiting until a moment sleeps exactly for the time left. The mock clock is read and set under its lock, moves on by one per reading up to its maximum, and refuses to be set back, in which case it is unchanged.",
  quantifier=inputs("every value of the clock and of the system clock, every moment and maximum", "schedules"),
  why="Equal or reordered readings need two threads in the same microsecond, or the system clock being set back; the tests read the clock in one thread.",
  anchors=anchors(["bricks/time/chrono.h"], clock="bricks/time/chrono.h: EpochClockGuaranteeingMonotonicity::Now", mock_clock="bricks/time/chrono.h: MockNowImpl, Now, SetNow, ResetToZero", sleep="bricks/time/chrono.h: SleepUntil"),
  note=BASE_NOTE + "Interference: before every atomic access other threads may move the clock forward; atomics are treated as sequentially consistent; the system clock is arbitrary between 1970 and the year 36000. The retry loop has an invariant, its termination is not claimed. Additionally bounded: four threads reading the real clock."),
 dict(id="U01", title="URLs: what is encoded and composed is parsed back",
  statement="Encoding any text as a URL component and decoding it gives the text back, the encoded form contains no byte that has a meaning in a URL, and any text, well-formed or not, can be decoded without error and without getting longer. A URL put together from scheme, user name, password, host, port, path, parameters and fragment is parsed into exactly these parts, a relative URL keeps its path and has no host, and composing and parsing again changes nothing.",
  quantifier=inputs("every byte string as a component, host, or path; every combination of parts with pieces of bounded length"),
  why="The tests use a few ASCII texts; every byte value, every malformed escape and every place of a delimiter matters.",
  anchors=anchors(["blocks/url/url.h", "bricks/strings/split.h", "bricks/strings/printf.h"], components="blocks/url/url.h: EncodeURIComponent, DecodeURIComponent, IsURIComponentSpecialCharacter", parser="blocks/url/url.h: ParseURLWithoutParameters, ExtractURLParametersFromURL", composer="blocks/url/url.h: ComposeURL, ComposeParameters"),
  note=BASE_NOTE + "Components of any length (loop invariants over the encoded text), and URLs of a host and a path of any length are proved; the other combinations of parts are bounded: pieces of one to four bytes of every value (contracts named bounded_*), longer ones on sampled inputs. std::string, std::ostringstream, atoi and stoi are used through their contracts."),
]
NA = {}
NOTES = ""
