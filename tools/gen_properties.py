#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},
              "why_tests_cant":why,"anchors":a})
BAR=["include/Barrier.hxx","src/Barrier.cxx"]; MB=["include/MailBox.hxx"]; FM=["include/Format.hxx","src/Format.cxx"]
OP=["include/Options.hxx","src/Options.cxx"]; PT=["include/PropertyTree.hxx","include/PropertyTreeYAML.hxx","src/PropertyTree.cxx","src/PropertyTreeYAML.cxx"]
SP=["include/Utils.hxx","src/Split.cxx"]
BW=("Barrier::wait","src/Barrier.cxx"); 
BSTATE=[("waiting / barrier_count","arrivals in the open round; generation number","include/Barrier.hxx"),("corrupted","a waiter has timed out","include/Barrier.hxx")]
TB="BarrierTest runs 20 threads that each wait once per trial on the real scheduler and only looks for a 100 ms timeout message; "
p("C01","A barrier never lets a caller through early",
 "A wait on a barrier made for N waiters never returns normally before N waits of that round have been called, whatever the thread interleaving, spurious wake-ups, pauses, wall-clock changes or timeouts of other callers. Counted over any history, the number of waits that have returned normally never exceeds N times the number of complete groups of N calls made so far.",
 ["schedules","histories","fault_sequences"],"every interleaving of up to 40 callers over many rounds, with spurious wake-ups, stalls, clock jumps and finite timeouts",
 TB+"it never checks who had arrived when a wait returned, so an early release goes unnoticed.",
 BAR,[BW],BSTATE,["Barrier::wait call and return"])
p("C02","A full barrier releases everybody, round after round",
 "Once the N-th caller of a round has arrived and no caller's time limit has run out, every one of the N waits returns normally without needing any further event, and the barrier is immediately ready for the next round. This holds for every number of rounds and every N >= 1, including when some callers re-enter the next round before others have left the previous one.",
 ["schedules","histories","fault_sequences"],"every interleaving of N callers over many rounds, including fast re-entry, lost/spurious wake-ups and stalled callers",
 TB+"a wake-up lost only under a rare interleaving, or a slow caller mistaken for the next round, needs a schedule the test does not control.",
 BAR,[BW],BSTATE,["Barrier::wait call and return"])
p("C03","A barrier shared by extra threads frees callers in groups of N",
 "When more threads than the barrier's N use it, the barrier still does not care who waits: each group of exactly N calls is freed together, and the callers left over stay blocked until enough further calls arrive. No caller is ever freed by a group it was not needed for, and none stays blocked while N calls are outstanding.",
 ["schedules","histories"],"every interleaving of M callers with M different from N, M not a multiple of N",
 "No test uses a barrier with more threads than waiters; the misbehaviour needs a caller preempted exactly at the entry of wait.",
 BAR,[BW],BSTATE,["Barrier::wait call and return"])
p("C04","Barrier time limits are honest",
 "A wait with a time limit never reports a timeout before that much steady time has passed since it was called, and never reports one for a round that was completed before the limit; spurious wake-ups, wall-clock changes and the size of the limit do not matter. If the round is still incomplete when the limit passes, the wait ends promptly with an exception instead of blocking on. A limit of zero, in either form of the call, means about 1000 days.",
 ["schedules","fault_sequences","inputs"],"every limit from 1 ms up to 1000 days and beyond anything a clock can count, every arrival time, wall-clock jumps, spurious wake-ups and interleavings",
 "The tests use one 100 ms limit on the real clock and cannot move the clock, wake a waiter spuriously or wait for days.",
 BAR,[("Barrier::wait timeout handling","src/Barrier.cxx")],BSTATE,["Barrier::wait call and return","virtual clock"])
p("C05","One timeout breaks the barrier for all its users, and all of them learn",
 "When a wait times out, exactly one caller gets the timeout exception; every other caller blocked in that incomplete round, and every caller that arrives later, promptly gets the corrupt-barrier exception, whatever limit it asked for. For each round, either all N calls return normally or none does, and nobody is left blocked; this also holds when reporting the exception itself fails for lack of memory.",
 ["schedules","histories","fault_sequences"],"every interleaving of timeouts with arrivals, releases and later calls, plus allocation failure while the exception is built",
 "FastBarrierTest_should_timeout only looks for one message; it cannot see that other waiters returned as if the barrier had been passed, and never calls wait on a broken barrier.",
 BAR,[("Barrier::wait timeout handling","src/Barrier.cxx")],BSTATE,["Barrier::wait call and return"])
p("C06","Barriers and mailboxes carry memory between threads without outside locks",
 "Whatever a thread wrote before calling wait is visible, race-free, to every caller released by that round, and whatever a sender wrote into a message before putting it is visible, race-free, to every subscriber that gets it. The two classes themselves may be used from any number of threads at once without external locking: none of their operations makes unsynchronised conflicting accesses to shared data, on normal, timeout and rejection paths alike.",
 ["schedules","histories"],"every interleaving of barrier rounds (completed, oversubscribed, timed out) and of all mailbox operations, judged by happens-before",
 "A missing happens-before edge gives correct answers on almost every real run of the tests, on x86 especially.",
 BAR+MB,[("mutex + condition variable","src/Barrier.cxx"),("one lock per mailbox, taken by every operation","include/MailBox.hxx")],None,["instrumented memory accesses, locks and atomics"])
p("C07","Every subscriber gets every message exactly once",
 "A message put into a mailbox is delivered exactly once to each subscriber of that mailbox, the sender's own subscription included unless the sender asked to be left out, and to nobody else. No message is lost, duplicated or invented however senders and receivers interleave and however many messages are queued.",
 ["schedules","histories"],"every interleaving of several senders and receivers, with and without sender exclusion, small and large backlogs, one or two mailboxes",
 "MailBoxTest compares sums of payloads on whatever interleaving the machine produces; compensating losses and duplicates, and rare interleavings, are invisible to it.",
 MB,[("put/get under one mutex","include/MailBox.hxx")],[("message_queues","one FIFO per subscriber","include/MailBox.hxx")],["put/get call and return"])
p("C08","All subscribers see messages in one agreed order",
 "Each subscriber reads its messages oldest first, and all subscribers of a mailbox agree on one order of all messages, leaving aside those they were not sent. That order contains each sender's own order and never puts a message after one whose put began only after the first put had returned.",
 ["schedules","histories"],"every interleaving of several senders with several subscribers, with and without sender exclusion",
 "MailBoxTest never looks at the order of what it receives.",
 MB,[("put pushes to every queue under one lock","include/MailBox.hxx")],[("message_queues","one FIFO per subscriber","include/MailBox.hxx")],["put/get call and return"])
p("C09","Mailbox operations behave as if executed one at a time",
 "Every concurrent history of put, get, ready counts, minimum ready count, clear, subscribe, unsubscribe and subscriber count on a mailbox is equivalent to some one-at-a-time execution that respects real-time order. In particular get returns nothing only if the subscriber's box was empty at some instant of the call, counts are exact at some instant, and clear removes exactly what was queued at one instant.",
 ["schedules","histories"],"every interleaving of up to four threads mixing all operations, including two threads sharing one subscription",
 "The tests run put and get only and check totals at the end; linearizability quantifies over every interleaving.",
 MB,[("lock_guard in every operation","include/MailBox.hxx")],[("message_queues","one FIFO per subscriber","include/MailBox.hxx")],["operation call and return, stamped with the simulator's event number"])
p("C10","Joining and leaving a mailbox affects nobody else",
 "A new subscription starts empty and receives exactly the messages put from its creation until it ends: nothing put before, nothing queued for an earlier subscription, nothing missing in between. A subscription that ends, at any time and any number of times re-created, disturbs no other subscription's messages or order, and the subscriber count follows.",
 ["schedules","histories"],"every interleaving of subscribe, drop and re-subscribe with puts and gets of other threads",
 "The tests subscribe everybody once before the first message and leave after the last.",
 MB,[("subscribe/unsubscribe","include/MailBox.hxx")],[("subscription_counter","ids are never re-used","include/MailBox.hxx")],["subscribe, drop, put, get call and return"])
p("C11","A message lives exactly as long as somebody can still use it",
 "A message object stays alive while any subscriber has yet to read it or any thread still holds it, and it is destroyed exactly once as soon as the last subscriber that owes it a read has read, cleared or left and the last holder let go. Destroying the mailbox releases everything still queued, and no operation leaks storage or touches freed storage.",
 ["schedules","histories"],"every interleaving of get, clear, unsubscribe, laggards and teardown",
 "MailBoxTest only counts objects at the very end of a run in which everyone read everything.",
 MB,[("shared_ptr per queue slot","include/MailBox.hxx")],None,["message constructor/destructor, operator new/delete"])
p("C12","Misused subscriptions are rejected without side effects",
 "Using a subscription on a mailbox it does not belong to raises the mismatch exception, reading, counting or clearing through one that was already cancelled raises the missing-subscriber exception, and converting a mailbox handle to the wrong message type raises the bad-conversion exception. A rejected call changes no mailbox, blocks nobody and releases every lock, whatever else is running, and dropping a cancelled subscription is harmless.",
 ["schedules","histories"],"every interleaving of rejected calls with valid ones on two mailboxes",
 "One single-threaded conversion is tested; no test misuses a subscription, least of all while others use the mailbox.",
 MB,[("SubscriptionCl::getIndex, getQueue, convert","include/MailBox.hxx")],None,["operation call, return and exception"])
p("C13","A mailbox survives memory exhaustion",
 "If memory runs out inside a mailbox operation, that call throws the allocation failure and nothing else goes wrong: no deadlock, no abort, no half-made subscriber, and nobody's already queued messages are lost, duplicated or reordered. A put that failed may have reached some subscribers, each at most once, and every other message is still delivered to every subscriber exactly once and in order.",
 ["fault_sequences","schedules","histories"],"allocation failure at any allocation inside any mailbox operation, under any interleaving",
 "No test injects allocation failures.",
 MB,[("subscribe/put under a lock guard","include/MailBox.hxx")],None,["operator new","operation call, return and exception"])
p("C14","A stalled user never holds up the others",
 "A subscriber or sender that stops using the mailbox between calls, for any time or for good, never makes another thread's mailbox operation block, fail or slow down without bound; get never waits for a message. The stalled subscriber's unread messages are all kept, in order, for when it returns.",
 ["schedules","histories","fault_sequences"],"any set of users pausing or dying between operations at any point, with backlogs of up to thousands of messages",
 "In the tests every thread keeps reading until all is delivered.",
 MB,[("unbounded queue per subscriber, non-blocking get","include/MailBox.hxx")],None,["operation call and return","virtual clock"])
p("C15","Separate objects can be used from separate threads",
 "Threads that each work on their own formats, option parsers, string splitting, property trees, barriers and mailboxes get exactly the results they would get alone, for every interleaving. The library shares no hidden mutable state between objects.",
 ["schedules","inputs"],"every interleaving, at memory-access granularity, of two or more threads each running a random sequence of library calls on private objects",
 "All format, option and property tests are single-threaded.",
 FM+OP+SP+PT,[("no static state except the radix separator","src/Format.cxx")],None,["results compared with a solo run","instrumented memory accesses"])
p("C16","Finished objects can be read by many threads at once",
 "Once filled in, parsed or loaded, a format, an option parser or a property tree can be read by any number of threads at once (getting the text, streaming it, asking which options are present, fetching positional arguments, looking up properties and lists, dumping) and every reader gets the same results as a single reader. Reading never changes the object.",
 ["schedules","inputs"],"every interleaving, at memory-access granularity, of two or more readers of one object",
 "All format, option and property tests are single-threaded.",
 FM+OP+PT,[("read paths do not write","src/Format.cxx, src/Options.cxx, src/PropertyTree.cxx")],None,["results compared with a solo run","instrumented memory accesses"])
p("C17","Formatting never hands out wrong text when memory runs out",
 "If memory runs out while a value is being formatted, the call throws; it never inserts truncated or empty text in silence. Repeating the failed call with the same value then gives exactly the text that would have resulted without the failure: no placeholder is skipped, filled twice or filled from the wrong value, and resetting restores the original.",
 ["fault_sequences","inputs"],"allocation failure at any allocation inside any formatting call, for every value type, width and placeholder layout",
 "No test injects allocation failures.",
 FM,[("insertField updates the argument counter last","src/Format.cxx")],None,["operator new","resulting text"])
p("C18","A parse that fails or is aborted does not poison the next one",
 "After a parse that failed or was cut short (unknown option, bad or missing value, help request, memory exhaustion, broken error stream), parsing another command line with the same parser gives for that line the same result, the same option values and the same newly added positional and list arguments as a fresh parser with the same options. A parse cut short by memory exhaustion never reports success.",
 ["fault_sequences","histories","inputs"],"any sequence of up to four parses with faults at any point, then a clean one, over random option sets and command lines",
 "OptionsTest parses one correct line with one parser.",
 OP,[("Options::parse","src/Options.cxx")],[("waiting_for_signed","parser state that outlives a parse","include/Options.hxx")],["parse results and targets compared with a fresh parser"])
p("C19","A failing output stream is never mistaken for success",
 "Writing a format, the option help or a property-tree dump to a stream that fails, stalls or accepts only part of the data at any byte leaves exactly a prefix of the intended text in the sink and the stream in a failed state unless all of it was accepted. The object written is unchanged, so writing it again to a working stream gives the full text.",
 ["fault_sequences","inputs"],"write failure, short write or exception at every byte position of every output operation",
 "The tests write to working streams only.",
 FM+OP+PT,[("operator<<, printHelp, dump","src/Format.cxx, src/Options.cxx, src/PropertyTree.cxx")],None,["bytes accepted by the sink, stream state"])
p("C20","Reading a property file gives the whole file or an error",
 "Whatever the disk does while a property file is read (short reads, interrupted calls, I/O errors at any point, failure to open), loading either throws or makes every property of the file retrievable under its full path with its value. An I/O error is never taken for the end of the file, and a file that cannot be opened raises the file-not-found exception. A path the file does not define is reported as absent: by returning false, or by the not-found exception when the caller asked for exceptions.",
 ["fault_sequences","inputs"],"short reads, EINTR, EIO at any read call, open failures, file sizes from empty to several buffers, random nested documents",
 "The one test loads a 150-byte file from a healthy disk and prints it.",
 PT,[("PropertyTreeYAML::readFile, PropNode::getProp","src/PropertyTreeYAML.cxx, src/PropertyTree.cxx")],None,["fopen/read/close seam","get/getProp/getKeys results"])
p("C21","A failed load leaves the property tree as it was",
 "If loading a file into a property tree fails for any reason (missing file, I/O error, syntax error, unsupported structure, memory exhaustion), everything readable from the tree before is still readable with the same value and nothing of the failed file shows. After a successful load of a further file its properties are readable and those of earlier files under other top-level names are untouched.",
 ["fault_sequences","histories","inputs"],"any sequence of loads into one tree with a fault at any point of any of them",
 "The test loads a single correct file.",
 PT,[("parse first, then fill","src/PropertyTreeYAML.cxx")],None,["dump and get results before and after"])
p("C22","A property file reported as written can be read back",
 "When writing a property tree to a file returns normally, the file holds the tree: loading it into an empty tree gives the same properties. When the disk refuses (cannot create, write error, disk full, failing close), the call throws.",
 ["fault_sequences","inputs"],"open, write and close failures at any point, random trees",
 "Nothing tests writing.",
 PT,[("PropertyTreeYAML::writeFile","src/PropertyTreeYAML.cxx")],None,["fopen/write/close seam"])
p("C23","Running out of memory never makes an answer wrong",
 "Asking a finished object something while memory runs out - a format for its text, an option parser which options and positional arguments were present, a property tree for values, keys and lists - or splitting a text into words either gives the right answer or lets the allocation failure (std::bad_alloc) out to the caller. A property, option, argument or word that exists is never reported as absent, malformed or shorter than it is. The object is unchanged: the same question asked again once there is memory has the right answer.",
 ["fault_sequences","inputs","histories"],"an allocation failure at any allocation of any question, alone or several in a row, by one or two readers, over random formats, parsers, trees and texts",
 "The tests never run out of memory, and streams inside the library can swallow the failure and go on with part of the text.",
 FM+OP+PT+SP,[("PropNode::get","include/PropertyTree.hxx"),("Format::str","src/Format.cxx"),("getPosArgs, isPresent","src/Options.cxx"),("getProp, getKeys, getList","src/PropertyTree.cxx"),("split, splitVec, squashSpaces","src/Split.cxx")],None,["result or exception of each question","allocator"])
# pure functions: stated, not claimed
p("C30","Formatted numbers read back as the value",
 "A floating-point number formatted in any of the four notations reads back equal to the value within the requested number of digits, and engineering notation always uses an exponent that is a multiple of three with an integer part from 1 to 999. Signs, zero, infinities and not-a-number are shown as such.",
 ["inputs"],"every double, width and digit count","FormatTest samples positive values only.",FM,[("Format::addF","src/Format.cxx")])
p("C31","Every placeholder gets its value and nothing else changes",
 "Each numbered placeholder, wherever and however often it occurs, is replaced by the value with that number and by nothing else; literal text, doubled percent signs and percent signs not followed by a digit come out as documented. A value whose text contains percent signs is not scanned again.",
 ["inputs"],"every format string and value","The tests use a few fixed format strings.",FM,[("Format::initialScan, insertField","src/Format.cxx")])
p("C32","Widths and separators never alter a value",
 "Width, fill, grouping separator, base and justification change only padding and separators: removing them gives back the plain digits or string, and the field is at least as wide as asked.",
 ["inputs"],"every integer, string, width, base and separator","The tests use a fixed table.",FM,[("Format::addI, addU, addS","src/Format.cxx")])
p("C33","Every command-line token has one documented role",
 "A command line is read left to right into options with their values and positional arguments, long and short names are equivalent, list options collect their values in order and presence options take none; nothing is dropped or reordered. Unknown options make the parse fail.",
 ["inputs","configurations"],"every option set and token list","OptionsTest parses one line.",OP,[("Options::parse","src/Options.cxx")])
p("C34","Unacceptable option values are refused",
 "A value that does not convert to the option's type or that the option's test rejects makes the parse report failure, naming the option and the value.",
 ["inputs","configurations"],"every type, value and acceptance test","Not tested.",OP,[("Opt::setVal","include/Options.hxx")])
p("C35","Key-value lists mean the same as the matching command line",
 "A comma-separated key=value list sets the same options to the same values as the corresponding long options.",
 ["inputs"],"every list","Not tested.",OP,[("Options::parseKeyValue","src/Options.cxx")])
p("C36","Splitting a string loses nothing but delimiters",
 "Joining the tokens of a split with the delimiters that separated them gives back the space-squashed input, empty tokens are kept or dropped as asked, and squashing spaces only removes repeated, leading and trailing spaces.",
 ["inputs"],"every string and delimiter set","SplitTest splits one string.",SP,[("split, squashSpaces","src/Split.cxx")])
p("C37","Property values convert to the requested type or are refused",
 "Fetching a property as a type gives the value whose text is stored, and text that is not of that type is reported as such by a false result or the documented exception, as the caller chose.",
 ["inputs"],"every value text and type","Not tested.",PT,[("PropNode::get","include/PropertyTree.hxx")])
p("C38","Version strings match the build and shared objects cannot be copied",
 "Every utility object reports the version and revision it was built from, and barriers and mailboxes cannot be copied or assigned.",
 ["configurations"],"every build","Not tested.",["version.hxx.in","src/UtilsBase.cxx","include/NoCopy.hxx"],[("configure_file, deleted copy operations","CMakeLists.txt, include/NoCopy.hxx")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
