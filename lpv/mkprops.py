#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (single source of the property texts).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    a = {"files": list(files), "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": qtext}, "why_tests_cant": why, "anchors": a})

M = "src/lamppost/messages/"; IM = "include/lamppost/messages/"; B = "src/lamppost/bus/"; IB = "include/lamppost/bus/"
prop("P01", "Wire round trip preserves messages",
 "Serialising a message to bytes and deserialising those bytes yields a message with the same sender, the same topic and a structurally identical payload. This holds for every payload built from empty nodes, lists (order kept), dictionaries (same keys) and string, int, double or bool values, at any nesting depth; serialising changes nothing in the original message.",
 ["inputs"], "every message whose payload is a finite tree of empty/list/dictionary/string/int/double/bool nodes; every sender and topic string",
 "The tests round-trip a few fixed small messages; the guarantee is over all tree shapes, depths, keys and values.",
 [M+"Message.cpp", M+"RawDatagram.cpp", IM+"RawDatagram.h", IM+"Datagram.h", "schemas/FBDatagram.fbs", "schemas/FBMessage.fbs"],
 [("Message::SerializeToBytes / Message::Deserialize", M+"Message.cpp:34"), ("RawDatagram::SerializeToStructure / DeserializeFromStructure", M+"RawDatagram.cpp:268")],
 observe=["bytes returned by serialisation", "message returned by deserialisation"])
prop("P02", "Copies of payloads are faithful and independent",
 "Copying a datagram node, copying or assigning a datagram, and reading a message's payload each yield a structurally identical tree. The result shares no node with its source, so a later modification of one, at any depth, is never visible through the other, and copying leaves the source unchanged.",
 ["inputs", "histories"], "every finite payload tree; every later modification of either side",
 "Tests copy one or two small datagrams; independence must hold for every tree and every later edit.",
 [M+"RawDatagram.cpp", M+"Datagram.cpp", IM+"Datagram.h", M+"Message.cpp"],
 [("RawDatagram::Copy", M+"RawDatagram.cpp:45"), ("Datagram copy constructor / assignment", M+"Datagram.cpp:8")],
 observe=["contents of both trees after the copy and after later writes"])
prop("P03", "Datagram and message equality is structural",
 "Two payloads compare equal exactly when they have the same kind and the same content: same value type and value, same length and pairwise equal items in order for lists, same key set and equal entries for dictionaries, and any two empty nodes. Inequality is its exact negation, comparing modifies nothing, and two messages are equal exactly when sender, topic and payload all are.",
 ["inputs"], "every pair of finite payload trees; every pair of messages",
 "Tests compare a handful of literals; agreement with structural equality must hold for every pair of trees.",
 [M+"RawDatagram.cpp", IM+"Data.h", M+"Datagram.cpp", M+"Message.cpp"],
 [("RawDatagram::operator==", M+"RawDatagram.cpp:492"), ("Data<T>::Equals", IM+"Data.h:33"), ("Message::operator==", M+"Message.cpp:57")])
prop("P04", "Datagram node editing semantics",
 "Adding to a node makes it a list if it was not one and appends exactly one item at the end; accessing a key makes it a dictionary if it was not one and yields that key's entry, creating an empty one only when absent; assigning a value makes it a value holding exactly that typed value. Removing by key or index removes exactly that entry and keeps the others in order, clearing empties a list or dictionary, and counts and key-existence report exactly the current content. Removing from the wrong kind, an absent key or an out-of-range index, counting or clearing a non-container, indexing a list out of range and reading a value as the wrong type throw, and these failures leave a node of the right kind unchanged.",
 ["inputs", "histories"], "every reachable node state; every key, index and value",
 "Tests exercise each operation on one or two nodes; the guarantee covers every prior state and every argument.",
 [M+"RawDatagram.cpp", IM+"RawDatagram.h", M+"Datagram.cpp", IM+"Datagram.h"],
 [("RawDatagram::Add/Get/Remove/Clear/GetCount/KeyExists/operator=", M+"RawDatagram.cpp:84")])
prop("P05", "Path lookup returns the addressed value or the default",
 "Looking up a slash-separated path of a given type returns the value of that type found by descending one dictionary key per path segment from the node. It returns the supplied default whenever a segment is missing, an intermediate node is not a dictionary, or the addressed node is not a value of that type; it never throws and never changes the tree.",
 ["inputs"], "every payload tree, path string, requested type and default",
 "Tests look up a few fixed paths in fixed trees.",
 [IM+"RawDatagram.h", IM+"Datagram.h"], [("RawDatagram::Get<T>(path, default)", IM+"RawDatagram.h:197")])
prop("P06", "JSON documents map faithfully to datagrams",
 "Reading a JSON document yields the corresponding payload: booleans, integers in 32-bit range, doubles and NUL-free strings become values of that type, arrays become lists in order, objects become dictionaries with the same keys, and null becomes an empty node, at every nesting level. An empty array or object and any text the parser rejects yield an empty node.",
 ["inputs"], "every parse result the JSON library can deliver, at any nesting depth",
 "No test covers JSON parsing of nested documents; the mapping must hold for all documents.",
 [M+"RawDatagram.cpp"], [("RawDatagram::DeserializeFromJson / ParseJsonObject", M+"RawDatagram.cpp:398")])
prop("P07", "Sender path bookkeeping",
 "Prepending a name to a message's sender yields the name, a slash and the old sender; a message reports that it was sent by a name exactly when its sender starts with that name followed by a slash. Removing a name strips exactly that leading name and slash when present and otherwise changes nothing, so removal undoes prepending; topic and payload are never affected.",
 ["inputs"], "every sender string, including empty ones and ones containing slashes, and every name",
 "Tests use two or three fixed names; prefixes, empty strings and repeated names are not covered.",
 [M+"Message.cpp"], [("Message::PrependSender/RemoveSender/WasSentBySender", M+"Message.cpp:62")])
prop("P08", "Topic matching",
 "A subscription pattern matches a topic exactly when the two strings are identical or the pattern is the catch-all \"/**/*\". No other pattern matches anything but itself, and the match does not depend on anything else.",
 ["inputs"], "every pair of pattern and topic strings",
 "Tests use a few topics; the guarantee is over all pairs of strings.",
 ["src/lamppost/utilities/AntMatcher.cpp", B+"Bus.cpp"], [("AntMatcher::Matches", "src/lamppost/utilities/AntMatcher.cpp:8"), ("Bus::TopicMatchesPattern", B+"Bus.cpp:171")])
prop("P09", "A message reaches every matching subscriber exactly once",
 "Distributing a message on a running bus invokes the callback of every subscriber registered on that bus, and on any running bus below it, whose pattern matches the message topic, exactly once per registered subscriber. Subscribers whose pattern does not match, that were deleted, that have no callback or that sit below a stopped bus are not invoked, and each callback receives a message or payload equal to the distributed one that it cannot alter for the others.",
 ["inputs", "histories", "configurations"], "every bus tree, every set of subscribers (any number per topic) and every message",
 "Tests use one or two subscribers on one bus; the count must be exact for every tree and registry content.",
 [B+"Bus.cpp", B+"Subscriber.cpp", IB+"Bus.h"], [("Bus::Distribute", B+"Bus.cpp:176"), ("Subscriber::Receive", B+"Subscriber.cpp:29")])
prop("P10", "Published messages are delivered in order, none lost or repeated",
 "Every message published through a running root bus, or through any bus created below it that is still attached, is queued once and distributed exactly once, in the order in which the publications entered the queue. Draining the queue never drops, repeats or reorders messages, and the message distributed equals the one published.",
 ["histories", "schedules"], "every sequence of publications and drains; every queue content",
 "Tests publish one message and wait; order and loss over arbitrary queue contents and interleavings are not exercised.",
 [B+"Bus.cpp", B+"Publisher.cpp", IB+"Bus.h"], [("root queue closure", B+"Bus.cpp:19"), ("Bus::Run drain loop", B+"Bus.cpp:130")])
prop("P11", "Child bus registry",
 "Creating a child bus under a new non-empty name returns a started bus with that name which publishes through its parent's queue and is the one later lookups of that name return; other children are unaffected. Creating one with an empty or already used name, or looking up an unknown name, throws the documented exception and changes nothing.",
 ["inputs", "histories"], "every registry content and every name",
 "Tests create one or two children; uniqueness and isolation are claimed for every registry.",
 [B+"Bus.cpp"], [("Bus::CreateChildBus / GetChildBus", B+"Bus.cpp:69")])
prop("P12", "Deleting a subscriber or publisher is complete and exact",
 "After a subscriber is deleted its callback is never invoked again, and after a publisher is deleted publishing through it does nothing. The deleted participant is no longer reported as contained, every other registered participant stays registered with its behaviour intact, and a newly created participant is always reported as contained.",
 ["inputs", "histories"], "every registry content and every participant",
 "Tests delete a single subscriber or publisher from a one-element registry.",
 [IB+"Bus.h", B+"Bus.cpp", B+"Publisher.cpp", B+"Subscriber.cpp"], [("Bus::DeleteManagedResource", IB+"Bus.h:66"), ("Subscriber::Reset / Publisher::Reset", B+"Subscriber.cpp:37")])
prop("P13", "Action responses reach exactly the request they answer",
 "An asynchronous action request publishes one message on the action's request topic that carries a fresh invocation id and an equal copy of the request. A response invokes only the callback registered for its invocation id, with the response payload, at most once in total; responses with unknown or already answered ids invoke nothing and leave other open requests untouched. A provider's answer is published on the action's response topic with the same invocation id and an equal payload.",
 ["inputs", "histories"], "every set of open requests, every invocation id and payload, every order of responses",
 "Tests run one request and one response; crossing, duplicate and unknown responses are not covered.",
 [B+"ActionConsumer.cpp", B+"ActionProvider.cpp", IB+"Bus.h"], [("ActionConsumer::RequestAsync / ProcessResponse", B+"ActionConsumer.cpp:23"), ("ActionProvider::Respond / ProcessRequest", B+"ActionProvider.cpp:26")])
prop("P14", "Bus registries and queue are only touched under their locks",
 "Every access that a bus operation makes to a bus's registries of children, publishers, subscribers, action participants or to its message queue, and every access to the open requests of an action consumer, happens while the lock belonging to that collection is held by the accessing thread. Every lock taken by such an operation is released on every way out of it, including exceptions, and is never taken twice by the same operation on the same object; no callback of a request runs under the lock of the open requests.",
 ["schedules"], "every public bus operation, every path through it, every interleaving with other operations",
 "A test run sees a few interleavings; a missing lock shows up only under a rare schedule.",
 [B+"Bus.cpp", IB+"Bus.h"], [("lock_guard in every registry operation", IB+"Bus.h:57")])
prop("P15", "Byte buffers hold exactly what was put in",
 "A byte buffer created from a memory block holds a private copy of exactly those bytes; appending extends it by exactly the appended bytes and keeps the earlier ones, so any sequence of appends yields the concatenation. Its size always equals the number of bytes held, all accesses stay in bounds, and creating one from a null block throws.",
 ["inputs", "histories"], "every block content and size, every sequence of appends",
 "No test covers byte buffers beyond a single serialised message.",
 ["src/lamppost/data/RawBytes.cpp"], [("RawBytes::RawBytes / Append", "src/lamppost/data/RawBytes.cpp:14")])
prop("P16", "Path helpers split and join exactly at the last separator",
 "Combining two paths yields the first, one slash and the second. The file name of a path is what follows the last slash (empty if there is no slash or nothing follows), the base directory is what precedes it (empty if there is none), and the extension is what follows the last dot of the file name (empty if there is no dot).",
 ["inputs"], "every pair of strings",
 "There are no tests of the path helpers.",
 ["src/lamppost/Filesystem.cpp"], [("Filesystem::CombinePaths/GetFilename/GetBaseDirectory/GetFileExtension", "src/lamppost/Filesystem.cpp:176")])
prop("P17", "Directory listings contain exactly the entries the filter asks for",
 "Listing a directory yields, in directory order, the name of each entry that is a regular file if the filter includes files and of each entry that is a directory if the filter includes directories, once each and nothing else; an unreadable directory yields an empty list. Every directory stream opened is closed exactly once.",
 ["inputs", "configurations"], "every directory content, entry kind and filter",
 "There are no tests of directory listings.",
 ["src/lamppost/Filesystem.cpp", "include/lamppost/Filesystem.h"], [("Filesystem::GetDirectoryContents", "src/lamppost/Filesystem.cpp:65")])
prop("P18", "Plugin instances get unique names and their own child bus",
 "Instantiating a plugin template creates the instance under the template's name followed by the smallest non-negative number not in use by a live instance of that template. The instance is created exactly once, with that name, with a new child bus of that name under the given parent and with the caller's custom configuration; it is registered and returned, and existing instances are unaffected.",
 ["inputs", "histories"], "every set of existing instances and every configuration",
 "There are no tests of plugin instantiation.",
 ["src/lamppost/plugin/PluginTemplate.cpp"], [("PluginTemplate::Instantiate", "src/lamppost/plugin/PluginTemplate.cpp:25")])
prop("P19", "Plugins shut down in a safe order",
 "Unloading a template stops every instance before any instance is deinitialised, does each exactly once per instance, and afterwards no instance remains registered. Unloading all templates does this for each template before closing its library, closes each registered library exactly once and leaves no template registered; doing it again does nothing.",
 ["histories", "configurations"], "every set of templates and instances",
 "There are no tests of plugin unloading.",
 ["src/lamppost/plugin/PluginTemplate.cpp", "src/lamppost/plugin/PluginManager.cpp"], [("PluginTemplate::Unload", "src/lamppost/plugin/PluginTemplate.cpp:60"), ("PluginManager::UnloadTemplates", "src/lamppost/plugin/PluginManager.cpp:185")])
prop("P20", "Only complete plugin libraries are accepted",
 "A file is opened as a plugin library only if it exists and has the platform's plugin prefix and extension, and a template is registered only if the library opens, offers both entry points and reports a non-empty identifier; it is then registered under that identifier with that library, and success is reported. In every other case failure is reported, the registered templates are unchanged, and a library that was opened is closed exactly once.",
 ["inputs", "fault_sequences"], "every file name and every combination of failures while loading",
 "There are no tests of plugin loading.",
 ["src/lamppost/plugin/PluginManager.cpp", "include/lamppost/plugin/PluginManager.h"], [("PluginManager::LoadTemplate", "src/lamppost/plugin/PluginManager.cpp:73")])
prop("P21", "A framework instance that has finished reports that it is stopped",
 "A framework instance does not report itself as stopped before or while it runs, and does so once its start call has returned. During that call plugin templates are loaded before configuration files are read, the root bus runs after both, and after the root bus returns all templates are unloaded.",
 ["histories", "configurations"], "every configuration and every point of the life cycle",
 "There are no tests of the life cycle.",
 ["src/lamppost/LampPost.cpp"], [("LampPost::Start / IsStopped", "src/lamppost/LampPost.cpp:116")])
prop("P22", "Configured plugins are instantiated, initialised and started in order",
 "For each entry of a configuration file's plugin list that has a type, in order, exactly one instance of that type is requested with that entry's configuration payload, and if one is created it is initialised once and then started once. Entries without a type are skipped, and an entry whose plugin cannot be created is reported and does not prevent the remaining entries from being processed.",
 ["inputs", "fault_sequences"], "every configuration document and every pattern of instantiation failures",
 "There are no tests of configuration processing.",
 ["src/lamppost/LampPost.cpp"], [("LampPost::ReadConfigurationFile / InstantiatePlugin", "src/lamppost/LampPost.cpp:52")])
prop("P23", "The link forwards every local message and echoes none back",
 "The link plugin sends each message it sees on its bus exactly once on every outgoing socket it has, unless the message came in through that same link, in which case it sends it on none. A message received from a socket is published on the bus exactly once with the link's own name prepended to its sender and topic and payload unchanged.",
 ["inputs", "configurations"], "every message and every combination of enabled roles",
 "There are no tests of the link plugin.",
 ["src/plugins/link/Link.cpp"], [("wildcard subscriber callback", "src/plugins/link/Link.cpp:76"), ("Link::Run", "src/plugins/link/Link.cpp:144")])
prop("P24", "Log lines are complete and unmixed",
 "Every log call writes exactly one line consisting of the logger's prefix in brackets, a space, two spaces per indentation level and the message, followed by a newline. The whole line is written while the process-wide log lock is held, and the lock is released afterwards.",
 ["inputs", "schedules"], "every prefix, message and indentation level; every interleaving of log calls",
 "There are no tests of logging.",
 ["src/lamppost/log/Log.cpp"], [("Log::Write / WriteSynchronized", "src/lamppost/log/Log.cpp:10")])
prop("P25", "Generated identifiers are well-formed version-4 style UUIDs",
 "Every generated identifier is complete and consists of five non-empty groups of lower-case hexadecimal digits joined by dashes, where the third group is exactly four digits starting with 4 and the fourth exactly four digits starting with 8, 9, a or b. This holds for every outcome of the random source, and a generated identifier is never equal to an empty one.",
 ["inputs"], "every sequence of values the random source can deliver",
 "No test checks identifiers, and a test could only sample random values.",
 ["include/lamppost/utilities/Uuid.h"], [("Uuid::CreateUuid", "include/lamppost/utilities/Uuid.h:32")])
prop("P26", "Configurations are equal exactly when all their settings are",
 "Two plugin manager configurations compare equal exactly when they name the same bus and the same template search paths in the same order; two framework configurations compare equal exactly when these are equal and they name the same configuration files in the same order. Inequality is the exact negation, and no comparison reads outside either list.",
 ["inputs"], "every pair of configurations, including lists of different lengths",
 "Tests compare lists of equal length only.",
 ["include/lamppost/plugin/PluginManagerConfiguration.h", "include/lamppost/LampPostConfiguration.h"], [("operator==", "include/lamppost/plugin/PluginManagerConfiguration.h:29")])
prop("P27", "Malformed wire bytes are rejected without harm",
 "Deserialising a byte block never reads outside the block and changes nothing else. A block that is not a complete serialised message - broken structure, or sender, topic, payload or the content its type calls for missing, or an unknown type - is reported by an OperationFailedException; no other exception leaves the operation. A link that receives such a block drops it, publishes nothing for it and goes on with the next message.",
 ["inputs"], "every byte block of every size and content, at every position of a stream of arrivals", "No test feeds malformed bytes.",
 [M+"Message.cpp", M+"RawDatagram.cpp", "src/plugins/link/Link.cpp"], [("Message::Deserialize", M+"Message.cpp:46"), ("RawDatagram::DeserializeFromStructure", M+"RawDatagram.cpp:350"), ("Link::ReceiveMessage", "src/plugins/link/Link.cpp:186")])
prop("P28", "Stopping a running bus terminates its run loop",
 "Once a running root bus is told to stop, its run loop returns within a bounded time, whatever is published meanwhile and from whichever threads, as long as callbacks return. The stop may come from any thread, also from a callback; it takes effect at once and never waits for a callback. Nothing but starting the bus sets it running.",
 ["schedules"], "every interleaving of stops and publications with the run loop", "Tests stop an idle bus once under one schedule; a loop that ends only on a lucky schedule passes them.",
 [B+"Bus.cpp"], [("Bus::Run", B+"Bus.cpp:137"), ("Bus::Stop", B+"Bus.cpp:171"), ("Bus::Distribute", B+"Bus.cpp:181")])
prop("P29", "A blocking request returns the answer or gives up",
 "A blocking action request publishes the request once and returns a payload equal to the answer if one arrives before it gives up, and an empty payload otherwise; it gives up only after waiting for the given timeout, and an answer that arrives while it waits wakes it. An answer that arrives at any later time, from any thread, reaches nothing of the finished call and has no effect.",
 ["schedules", "inputs"], "every moment and thread in which the answer may arrive, every payload and timeout", "Tests answer at once or never; an answer that arrives while the call gives up, or after it returned, is never exercised.",
 [B+"ActionConsumer.cpp"], [("ActionConsumer::Request", B+"ActionConsumer.cpp:46"), ("ActionConsumer::ProcessResponse", B+"ActionConsumer.cpp:79")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
open(out, "w").write("".join(json.dumps(p) + "\n" for p in P))
