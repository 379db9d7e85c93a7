#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept here because it is easier to edit)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
                 "observe_at":list(observe),"hook_needed":hook}})
R="rust/rpc/src/lib.rs"; RP="rust/rpc/src/parse.rs"
C="rust/core-lib/src/"
p("C01","Every RPC request completes exactly once, with its own answer",
 "Every request sent over an RPC connection, blocking or with a callback, from any thread, completes exactly once: with the peer's answer to that very request if one arrived, otherwise with an error, and always within bounded time of the connection ending in any way (also when it is sent after the end, and when callbacks send further requests or take locks that senders hold). A malformed answer completes its request with an error; unsolicited, repeated or late answers change nothing. When the connection ends the loop returns and reports how it ended.",
 ["schedules","histories","fault_sequences"],"all interleavings of client threads, the read thread and the main loop; all orders, delays, duplicates and omissions of answers; connection loss at any byte",
 "the tests drive one request at a time over an in-memory channel and never lose the connection",
 [R,RP],[("pending map under a lock, drained on disconnect",R+" RawPeer::disconnect, handle_response, send_rpc_request_common")],
 [("pending","requests awaiting an answer",R+" RpcState")],["results of send_rpc_request and callbacks","return value of mainloop"])
p("C02","Incoming RPCs are handled in order, one at a time, each answered once",
 "Messages received on a connection are handled on one thread, never concurrently, in exactly the order in which they arrived, whatever their timing and fragmentation; every incoming request gets exactly one response, carrying its own id and its own result or error, in request order. A malformed or unknown request gets an error response and a response nobody asked for is ignored, without disturbing any other message; a malformed notification or text that is not a JSON object ends the loop with an error after everything before it has been handled.",
 ["schedules","inputs","histories"],"all message sequences, all fragmentations of the byte stream and all schedules of read thread and main loop",
 "unit tests feed single messages from a complete buffer",
 [R,RP],[("receive queue with condition variable",R+" put_rx, get_rx_timeout, next_read"),("request parsing",RP+" into_rpc")],observe=["order of Handler calls","bytes on the wire"])
p("C03","Outgoing messages are never torn, interleaved, lost or reordered",
 "Whatever is sent concurrently by any number of threads arrives at the peer as whole newline-terminated JSON messages, each exactly once and unchanged, with the messages of one thread in the order it sent them, and a response after the notifications sent while handling its request; request ids are never reused. This holds for short and interrupted writes and for a peer that reads slowly.",
 ["schedules","inputs","fault_sequences"],"all interleavings of sending threads, all message contents, all short/interrupted writes and back pressure",
 "tests send from one thread into a channel that never blocks or splits a write",
 [R],[("one write_all per message under the writer lock",R+" RawPeer::send")],observe=["bytes on the wire"])
p("C04","Timers never fire early, idle work never starves, nothing is dropped",
 "Every scheduled idle token and every timer, scheduled from any thread, is delivered exactly once; a timer never before its deadline and, once the loop is free, promptly after it, in deadline order; idle tokens in the order they were scheduled. Idle work and timers never run while an incoming message is already waiting, and overdue timers run before idle work.",
 ["schedules","histories"],"all schedules, clock values and stalls; scheduling from handlers, idle callbacks and other threads",
 "time-dependent tests can only sample the real clock",
 [R],[("timer heap, idle queue, bounded wait",R+" next_read, check_timers, Timer::cmp, MAX_IDLE_WAIT")],observe=["Handler::idle calls and their simulated times"])
p("C05","The front-end's copy of the text is always the buffer's text",
 "A front-end that applies the core's update messages as the protocol documents (copy, skip, invalidate, ins, update against its line cache) always has a valid mirror: every op sequence is consistent with the cache it applies to, every line the mirror holds has exactly the text, cursors and soft-wrap status of the corresponding line of the document, and after activity stops the mirror holds correct contents for every line in the visible region, whatever edits, scrolls, resizes, wraps, annotations and plugin edits happened. Pristine status shown to the user equals whether the text is the last saved or loaded text's revision.",
 ["histories","schedules","inputs"],"all sequences of edits, scrolls, resizes, plugin updates and line requests, all interleavings of plugins and idle work",
 "unit tests check a handful of hand-written edits and mostly the shadow structure alone",
 [C+"view.rs",C+"line_cache_shadow.rs",C+"linewrap.rs",C+"event_context.rs"],[("line cache shadow and render plan",C+"line_cache_shadow.rs"),("update ops from shadow",C+"view.rs send_update_for_plan, render_if_dirty")],observe=["update notifications"])
p("C06","Editing commands change exactly the document they are sent to, as specified",
 "For any sequence of editing and movement commands in any number of views, the text of every buffer equals that of a straightforward reference editor applying the same commands in arrival order: insertions replace the selections, deletions remove them, cursors follow their text, and no command ever changes the text of another buffer.",
 ["histories","inputs"],"all command sequences over all texts and selections, across several open views",
 "tests cover single commands on short samples",
 [C+"editor.rs",C+"edit_ops.rs",C+"selection.rs",C+"view.rs",C+"tabs.rs",C+"event_context.rs"],[("command dispatch",C+"event_context.rs do_edit"),("edit ops",C+"edit_ops.rs")],observe=["document text through update ops, copy responses and saved files"])
p("C07","Undo and redo walk the exact history of texts",
 "Undo and redo step through the exact sequence of texts the buffer had at undo-group boundaries: undo restores the text before the last not yet undone group, redo restores it after, any new edit discards the redo branch, and undoing everything kept restores the oldest kept text. This holds for every interleaving of edits, undos and redos, after history has been garbage collected, and while plugins acknowledge revisions late.",
 ["histories","schedules"],"all sequences of edits, undo, redo over any history length; all plugin acknowledgement timings",
 "tests make a few undos on one-line texts; history collection happens only after 20 groups and depends on plugin timing",
 [C+"editor.rs","rust/rope/src/engine.rs"],[("undo groups and live undo list",C+"editor.rs calculate_undo_group, do_undo, do_redo, gc_undos"),("Engine::undo, gc","rust/rope/src/engine.rs")],observe=["document text"])
p("C08","Plugins that only watch never change what the user sees",
 "Running any number of plugins that do not edit, however slow, stalled or dying, never changes the text, undo history, selections, or files that result from a given sequence of user commands.",
 ["schedules","histories","fault_sequences"],"all plugin speeds, stalls, deaths and acknowledgement orders relative to user input",
 "no test runs a plugin against a live core",
 [C+"editor.rs",C+"plugins/mod.rs",C+"tabs.rs"],[("revisions in flight, gc deferral",C+"editor.rs increment_revs_in_flight, dec_revs_in_flight, gc_undos")],observe=["final text, saved file, undo trace compared with a run without plugins"])
p("C09","A plugin's view of the document is the document",
 "Whatever a plugin reads through the plugin library (single lines, ranges, line numbers for offsets and back) always equals the contents of the document at the revision it was last told about, for every edit history, document size and chunk size; after activity stops that revision is the current document.",
 ["histories","schedules","inputs"],"all edit histories, chunk boundaries, access patterns, and timings of updates against reads",
 "cache tests apply one or two hand-written deltas to a mock core",
 ["rust/plugin-lib/src/base_cache.rs","rust/plugin-lib/src/state_cache.rs","rust/plugin-lib/src/dispatch.rs",C+"editor.rs"],[("chunk cache and line offsets updated per delta","rust/plugin-lib/src/base_cache.rs update, update_line_cache"),("plugin_get_data",C+"editor.rs")],observe=["plugin-side reads compared with harness model"],hook="a constructor for the plugin main loop that takes its streams")
p("C10","Concurrent user and plugin edits are merged without losing either",
 "A plugin edit made against an older revision is applied exactly once and merged: all text the user typed since survives, text the user deleted stays deleted, the plugin's insertion appears once at the place its surroundings moved to, after text which an edit of lower or equal priority has meanwhile put at the same place and before that of a higher one. A revision stays usable as a base until every plugin has acknowledged a later one. All observers (front-end, other plugins, saved file) agree on the resulting text.",
 ["schedules","histories"],"all interleavings of user edits with plugin edits based on any retained older revision",
 "there is no test with a live plugin editing concurrently",
 [C+"editor.rs","rust/rope/src/engine.rs",C+"event_context.rs"],[("edit_rev with base revision","rust/rope/src/engine.rs mk_new_rev, edit_rev"),("apply_plugin_edit",C+"editor.rs")],observe=["document text in the front-end mirror, in a second plugin and on disk"])
p("C11","A failing plugin never takes the editor down",
 "Whatever a plugin does (crash at any point, hang, close its pipes, send unparsable, unknown or out-of-range messages, exit while a message is in flight, be stopped and restarted), the core keeps running and handling user commands, no user text is lost, other plugins keep working, and the plugin that died is reported as stopped.",
 ["schedules","fault_sequences","inputs"],"all points at which a plugin can die, hang, or misbehave, and all message contents it can send",
 "there is no test in which a plugin process fails",
 [C+"plugins/mod.rs",C+"tabs.rs",C+"event_context.rs",R],[("plugin thread and plugin_exit",C+"plugins/mod.rs start_plugin_process"),("do_plugin_cmd",C+"event_context.rs")],observe=["core still answers; panics of core threads; plugin_stopped notifications"])
p("C12","Plugins see a consistent lifecycle",
 "A plugin sees each view it serves exactly once begin (at initialisation or as a new buffer) and, if the view is closed, exactly once end; it never receives updates, saves, config or language changes for a view it has not been given or that has ended; it sees updates in revision order with no gap; and after stop it receives nothing but shutdown.",
 ["schedules","histories"],"all interleavings of opening, closing, saving, changing language and starting and stopping plugins",
 "no test observes the message stream to a plugin over time",
 [C+"tabs.rs",C+"plugins/mod.rs",C+"event_context.rs","rust/plugin-lib/src/dispatch.rs"],[("initialize_plugins, did_close, update_plugins",C+"tabs.rs and event_context.rs")],observe=["raw message stream to a scripted plugin"])
p("C13","Styles and annotations stick to the text they were given for",
 "A style or annotation which a plugin attaches to a range of some revision stays on the surviving characters of that text through every later edit, is never shown on other text that was there before, never reaches outside the document, never makes the core fail, and disappears when its plugin clears it or stops; the style ranges the front-end sees on each line are those of the merged layers.",
 ["schedules","histories","inputs"],"all edits between the revision a style was computed for and its arrival, all plugin timings",
 "tests apply styles to a static document",
 [C+"layers.rs",C+"annotations.rs",C+"editor.rs",C+"event_context.rs"],[("Layers::update_layer, update_all",C+"layers.rs"),("transform to current revision",C+"editor.rs update_spans")],observe=["styles arrays of update ops"])
p("C14","Saving is atomic: a crash leaves the old or the new file",
 "If the process is killed or the machine loses power at any instant during a save, the file afterwards contains either exactly the previous contents or exactly the text being saved, never a mixture, a prefix or nothing; once the save has been reported to have succeeded, it contains the new text. Permission bits of an existing file survive a save. Apart from the file itself and the temporary file NAME.swp, no file is touched.",
 ["crash_points","histories","fault_sequences"],"every system call of a save as a crash point, every subset of unsynced effects lost or torn by the crash",
 "tests never crash and cannot lose power",
 [C+"file.rs"],[("write to a temporary file, then rename",C+"file.rs try_save")],observe=["file contents after simulated crash"])
p("C15","A failed save reports an error and loses nothing",
 "If any file operation of a save fails (disk full, I/O error, permission, short write), the user is shown an error, the buffer and its history stay intact, the view is not marked saved, the previous file contents stay intact, and a later save without faults succeeds with the current text. A save never overwrites a file that changed on disk since it was loaded or last saved.",
 ["fault_sequences","histories"],"every file operation of a save failing in every way, in any sequence of saves and edits",
 "tests never make the file system fail",
 [C+"file.rs",C+"tabs.rs"],[("FileError propagation, has_changed",C+"file.rs save_existing, do_save")],observe=["alert notifications","file contents","pristine flag"])
p("C16","What is saved is what is loaded",
 "For any text, opening a saved file again shows exactly the text that was saved, byte order mark and permissions included, whichever views saved it; a file that is not valid text or cannot be read gives an error and leaves it untouched.",
 ["inputs","histories"],"all texts, encodings, and open/edit/save/close/reopen sequences across views",
 "no test round-trips through the tab layer",
 [C+"file.rs",C+"tabs.rs"],[("try_load_file, try_decode, try_save",C+"file.rs")],observe=["file bytes and front-end mirror after reopening"])
p("C17","External file changes are noticed and never clobber unsaved work",
 "If a file open in an unmodified view changes on disk, the view shows the new contents within bounded time; if the view has unsaved edits, they are kept and the file is not overwritten silently. The core's own saves are never mistaken for external changes.",
 ["schedules","histories","fault_sequences"],"all interleavings of external writes, watcher events (delayed, merged, reordered against saves), user edits and saves",
 "watcher tests need a real file system and sleep; the reload path is not tested",
 [C+"watcher.rs",C+"tabs.rs",C+"file.rs"],[("file watcher queue and reload",C+"tabs.rs handle_open_file_fs_event")],observe=["front-end mirror, file contents"])
p("C18","Configuration is layered deterministically and changes arrive as deltas",
 "The effective configuration of every buffer is that of the most specific layer that sets each key (defaults, user file, language, buffer override), no matter in which order or how often layers change; the front-end and plugins, by applying the changes they are sent, always end up with the effective configuration. A malformed or invalid configuration file is reported and changes nothing (a language file that is unusable at start-up is only logged).",
 ["histories","schedules","inputs"],"all sequences of changes to config files, overrides and languages, and all watcher timings",
 "tests check single tables without a running core or file watcher",
 [C+"config.rs",C+"tabs.rs"],[("ConfigManager stacks and deltas",C+"config.rs")],observe=["config_changed notifications to front-end and plugin"])
p("C19","Incremental soft wrapping equals wrapping from scratch",
 "After any sequence of edits, resizes, wrap-setting changes and interleaved background wrapping, the visual line breaks the user ends up with are the same as those of a fresh view of the same text at the same width, and at all times visual lines partition the document.",
 ["histories","schedules"],"all edit/resize sequences and all interruptions of background wrapping",
 "tests wrap static text or apply a few edits without interleaving",
 [C+"linewrap.rs",C+"view.rs"],[("Lines, rewrap_chunk, after_edit",C+"linewrap.rs")],observe=["lines and soft-wrap markers of update ops"])
p("C20","Incremental find shows exactly the matches",
 "While a search is active, the highlighted matches after any sequence of edits are exactly those that a fresh search of the resulting text finds, and moving to the next or previous match and replacing act on exactly those matches.",
 ["histories","inputs"],"all query/edit/find-next/replace sequences",
 "tests search static text or one edit",
 [C+"find.rs",C+"view.rs",C+"editor.rs"],[("update_find on delta",C+"find.rs")],observe=["find highlight spans in update ops","find_status notifications"])
p("C21","Playing a recording repeats what was recorded",
 "Playing back a recording performs the same edits that were made while recording, so that the same starting text, cursor and clipboard give the same resulting text and cursors, and one undo takes the whole playback back. Playing a recording that does not exist, was thrown away, or is still being made changes nothing. (A search that is itself part of the recording goes on in the background and is not waited for.)",
 ["histories","inputs"],"all sequences of recorded commands",
 "tests check the recorder's filtering, not playback on a document",
 [C+"recorder.rs",C+"editor.rs",C+"event_context.rs"],[("Recorder::record, play",C+"recorder.rs")],observe=["document text"])
p("C22","Replicas that merge the same edits converge",
 "Any number of replicas of a document that edit and merge with each other in any order, with states lost, duplicated, delayed and reordered on the way and replicas that crash and come back, reach identical text once each has merged all others' edits; every character inserted by anyone and deleted by no one appears exactly once, and what a replica types in one go stays contiguous and in order. (Merging undo is documented as unsupported.)",
 ["schedules","histories"],"all delivery orders, partitions, duplicated merges of replica states",
 "merge tests use a few hand-made three-replica scripts",
 ["rust/rope/src/engine.rs"],[("Engine::merge, rebase, rearrange","rust/rope/src/engine.rs")],observe=["Engine::get_head of every replica"])
p("C24","Tracing never loses, tears or misattributes samples and never blocks",
 "With tracing enabled, disabled and collected concurrently from any threads, every sample recorded while tracing is on appears exactly once in some collection unless the configured limit was exceeded, is never torn or attributed to another thread, samples recorded while off never appear, and no call deadlocks. A trace the core saves on request is complete, valid JSON and holds the samples of the front-end, the core and each plugin that answers, whatever the other plugins do, and a save that fails leaves the core running.",
 ["schedules"],"all interleavings of recording, enabling, disabling and collecting threads",
 "tests trace from one thread",
 ["rust/trace/src/lib.rs"],[("per-thread storages behind a global lock","rust/trace/src/lib.rs")],observe=["samples_cloned_unsorted"])
p("C25","The LSP client pairs responses, frames messages and applies every edit",
 "The language-server client sends well-framed messages (header length equals body length), hands every response to exactly the request it answers under any ordering, and keeps the server's copy of each open document equal to the editor's (opened once the server is initialized, changed with growing versions in the way the server asked for, closed with the view). A hover answer is shown in the view that asked, for the position it asked about, and a server that answers late, with an error or not at all, or exits, does not disturb other documents or the editor.",
 ["schedules","inputs","histories"],"all response orders and fragmentations, all edit histories, server exits",
 "tests parse a few static messages",
 ["rust/lsp-lib/src/language_server_client.rs","rust/lsp-lib/src/parse_helper.rs","rust/lsp-lib/src/utils.rs"],[("pending map, read_message","rust/lsp-lib/src/")],observe=["bytes to the server"])
p("C26","Views can be opened and closed at any time",
 "Opening, closing and reopening views in any order, with commands, idle work, plugin messages, file events and configuration changes for them still in flight, never fails or affects other views; ids are never reused and a command for a view that is gone is ignored.",
 ["schedules","histories"],"all interleavings of view lifecycle with everything else in flight",
 "tests open and close a view in sequence with nothing in flight",
 [C+"tabs.rs",C+"core.rs",C+"event_context.rs"],[("CoreState maps and idle tokens",C+"tabs.rs")],observe=["core still answers; panics; ids"])
p("C27","No front-end message can crash the core or corrupt a buffer",
 "Once the session has been started, any well-formed message with any argument values (offsets, lines, counts and sizes out of range, unknown views, huge or negative numbers) leaves the core running, every buffer valid and the mirror correct; it is either carried out on the nearest valid position, ignored, or answered with an error.",
 ["inputs","histories"],"all argument values in all states",
 "tests pass plausible values only",
 [C+"view.rs",C+"edit_types.rs",C+"event_context.rs",C+"rpc.rs"],[("clamping in view and editor",C+"view.rs, movement.rs")],observe=["core still answers; panics"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
