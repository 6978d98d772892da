#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (edit here, run, commit both)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

SRV='core/src/server.rs'; ED='core/src/editor/mod.rs'; CORE='core/src/editor/core.rs'
PT='core/src/editor/piece_table/mod.rs'; NAV='core/src/editor/piece_table/navigator.rs'
BUF='core/src/editor/buffer.rs'; VIEW='core/src/editor/view.rs'; MENU='core/src/editor/menu.rs'
CMD='core/src/editor/command.rs'; DIFF='core/src/editor/diff.rs'; SEL='core/src/editor/selection.rs'
CONN='remote/src/connection.rs'; CLI='remote/src/client.rs'; RPC='remote/src/jsonrpc.rs'; SES='remote/src/session.rs'
LIB='remote/src/lib.rs'

prop('C01','Every request line gets exactly one response, in order, only to its sender',
 'Every line a connected client sends to the server is answered to that client by exactly one JSON-RPC response line: a well-formed request is answered under its own id, a line that is not a well-formed request is answered by one error with a null id. The responses on a connection come in the order in which its requests were sent, and nothing else that looks like a response is ever received on it. This holds for pipelined requests however the byte stream is cut into pieces, delayed or interleaved with other clients, and also for complete lines received before the client closes its sending side.',
 ['schedules','inputs','fault_sequences','histories'],
 'every number of clients, every mix of valid, unknown, mistyped and malformed request lines, every chunking/delay of the byte streams, every interleaving of the server tasks',
 'connect_test opens one client and waits for one view notification; no test sends a request over a connection, pipelines, splits bytes or uses two clients.',
 [SRV,ED,RPC,'remote/src/transport/server_stream.rs'],
 [('line framing and per-client event queue','server.rs read_client / handle_events'),('dispatch and error mapping','editor/mod.rs Editor::handle'),('response! macro','remote/src/jsonrpc.rs')],
 ['bytes on each client connection'],
 [('clients','live connections by id','server.rs handle_events')])
prop('C02','No client can stop the server or disturb the other clients',
 'Whatever one client sends or does - malformed or non-UTF-8 input, unknown methods, requests after quitting, disconnecting or being reset at any byte, stopping to read, or running scripts that return and use only functions of the editor API - the server keeps running and every other connected client keeps being answered and notified. A failing attempt to accept one connection does not stop the server either. Once the faults have stopped, a request sent by any remaining or new client is answered.',
 ['schedules','fault_sequences','inputs','histories'],
 'every client behaviour and disconnection point, every transient accept error, every interleaving with the other clients',
 'no test disconnects a client abruptly, sends invalid input to a running server, or keeps two clients connected at once.',
 [SRV,ED,CORE,RPC], [('leave / quit handling','server.rs handle_events'),('reader task','server.rs read_client'),('accept loop','server.rs serve')],
 ['server process state','answers to probe requests of well-behaved clients'])
prop('C03','Notifications reach exactly their addressees, whole and in order',
 'Every line the server sends is one complete JSON-RPC message, and the notifications on a connection arrive once and in the order in which the events that caused them were handled (a client that leaves may miss the last ones; answers may overtake them). A notification caused for one client (echo, hint, status, menu, info) is received by that client and by no other; a view notification is received only by clients whose displayed view changed, was re-rendered or was selected. A client is told its own identity, session and working directory before anything else that depends on it, and no two live clients are given the same identity.',
 ['schedules','histories','fault_sequences'],
 'every interleaving of joins, requests and leaves of any number of clients, every cut of the outgoing byte streams including short writes',
 'the tests drive one in-process editor with a collected notification channel; the broadcast task, routing between connections and partial writes are never exercised.',
 [SRV,CORE,ED],[('BroadcastMessage::should_notify','server.rs'),('Notifier','editor/core.rs'),('broadcast task','server.rs handle_events')],['bytes on each client connection'])
prop('C04','Every client ends up showing the current content of the view it displays',
 'When all requests have been handled, the last view a client was sent equals what the view it displays looks like now: the same buffers and lenses, the current line count and text of each, and its own selections. This holds after edits, appended text, reloads, view changes and view deletions made by any client, and a client that joins is shown the view it starts with.',
 ['schedules','histories'],
 'every history of requests from any number of clients sharing buffers and views, every interleaving',
 'view tests use one client and check its own view after each step; convergence of the other clients after somebody else changes a shared buffer is never checked.',
 [CORE,VIEW,ED],[('notify_view_update','editor/core.rs'),('clients_with_buffer','editor/core.rs'),('to_notification_params','editor/view.rs')],['last view notification of every client'],
 [('clients','view and selections per client','editor/core.rs CoreState'),('buffers','content by name','editor/core.rs CoreState')])
prop('C05','Cursor moves, selections and deletions do what the reference editor does',
 'For every client and every sequence of moves, extensions and deletions, interleaved in any way with those of other clients on the same buffers, the resulting text and the highlighted selection are those of a simple reference editor working on whole characters (grapheme clusters) of texts with newline-terminated lines. Deleting removes exactly the selected text, the remaining cursors and selections stay on valid positions of the changed text, and a client only ever moves its own selections.',
 ['schedules','inputs','histories'],
 'every text including empty lines, multi-byte and combining characters and missing final newlines; every sequence of move/extend/delete keys; every interleaving of two or more clients on shared buffers and multi-buffer views',
 'the scripted Lua tests use a few fixed ASCII texts and a single client.',
 [CORE,SEL,PT,NAV,VIEW,BUF],[('move_cursor / delete_selection / clamp_selections','editor/core.rs'),('Navigator','editor/piece_table/navigator.rs'),('PieceTable delete/append','editor/piece_table/mod.rs'),('selection rendering','editor/view.rs')],['view notifications (text and Selection faces)','selection texts reported by exec scripts'],
 [('Selection','anchor, cursor, target column','editor/selection.rs')])
prop('C06','Views and buffers stay consistent through every add, remove and delete',
 'Each client always displays exactly one existing view and every buffer shown by a view exists; selecting an unknown view or adding or removing an unknown buffer is refused and changes nothing. Deleting a view removes exactly those buffers no other view shows, moves the clients that displayed it to the most recent remaining view and leaves the others alone; when the last view is deleted a fresh scratch view takes its place. Adding or removing a buffer changes the displayed view only as requested.',
 ['histories','schedules'],
 'every history of edit, view, view-add, view-remove, view-delete by any number of clients, every interleaving',
 'view_operations_test runs six fixed single-client sequences.',
 [CORE,VIEW,'core/src/stackmap.rs',ED],[('add_view / delete_view / modify_view / view','editor/core.rs'),('StackMap','stackmap.rs')],['view notifications','responses','view and buffer menus'],
 [('views','most recently added first','editor/core.rs CoreState')])
prop('C07','Opening a file shows exactly its content, or fails leaving everything as it was',
 'A successful request to open a file shows precisely the text stored on disk (texts without carriage returns), whatever the sizes and interruptions of the individual reads. If the file cannot be opened, read or decoded, the request is answered with an error, the server keeps serving everybody, and no buffer, view or displayed content changes; a later request for the same file succeeds once the cause is gone.',
 ['fault_sequences','inputs','schedules'],
 'every file content, every failing system call of the load (missing, permission, I/O error, too many files), short and interrupted reads, invalid UTF-8',
 'one unit test opens Cargo.toml; no I/O error is ever produced.',
 [BUF,CORE,ED],[('Buffer::new_file','editor/buffer.rs'),('Core::open_file / edit','editor/core.rs')],['responses','view notifications'])
prop('C08','Re-opening an open file picks up outside changes exactly, and only those',
 'After a successful request to edit an already open file whose content on disk was changed from outside, every client displaying it is shown the content on disk, for every old and new text without carriage returns; if the file was not changed from outside, the buffer including unsaved edits is left as it is. If the file cannot be read any more the request fails and the buffer keeps its content.',
 ['inputs','histories','fault_sequences','schedules'],
 'every pair of old and new text, every placement of the outside change relative to the load and the clock (including changes during the load, coarse time stamps and clock steps), every read fault, concurrent clients',
 'diff has two fixed example pairs; reload and time stamps are not tested.',
 [BUF,DIFF,PT,CORE],[('load_from_disk / is_synced','editor/buffer.rs'),('diff / apply_diff','editor/diff.rs, editor/piece_table/mod.rs')],['view notifications of all clients'],
 [('last_sync','when the buffer was last read','editor/buffer.rs Buffer')])
prop('C09','A session lives exactly as long as it has clients and cleans up after itself',
 'A server goes on serving as long as at least one client is connected, through any sequence of joins, quits, disconnections and resets, and terminates successfully once the last client has left. On termination its session no longer appears in the session list and its socket is gone, with the session directory when nothing else is left in it, while sockets and directories of other sessions are untouched. A client that quits is answered, removed and disconnected without affecting the others; one that arrives while the server is terminating may be turned away.',
 ['schedules','histories','crash_points','fault_sequences'],
 'every history of joins and departures (quit request, quit menu entry, close, half-close, reset), every interleaving, several sessions in the same directory',
 'no test looks at departure, termination or the session directory.',
 [SRV,SES],[('leave handling and clean-up','server.rs handle_events / run'),('Session::list','remote/src/session.rs')],['server exit','session directory','connections of remaining clients'])
prop('C10','Starting a session yields one reachable server, whatever was there before',
 'After ensuring or starting a session of the session directory reports success, a client can connect to it as long as its server is not terminating because its last client left, including when an earlier server of that session crashed leaving its socket behind and when several clients start the same session at the same time. A second server for a session that is being served gives up without disturbing the first one, its socket or its clients. Starting never blocks for ever: if the server cannot start, the starter gets control back.',
 ['schedules','crash_points','fault_sequences'],
 'every crash point of an earlier server, every interleaving of concurrent starters and servers, failing spawn/bind/mkdir',
 'connect_test starts one daemon in a clean directory.',
 [LIB,SRV,'remote/src/transport/socket.rs',SES],[('ensure_session / start_daemon','remote/src/lib.rs'),('bind','remote/src/transport/socket.rs'),('readiness line','server.rs serve')],['connect attempts after success','processes','session directory'])
prop('C11','The client library mirrors the server state and never loses or reorders traffic',
 'The state a client connection exposes always equals the result of applying, in order, every notification received so far, whatever the cutting and delay of the byte stream and whatever unknown or undecodable messages appear in it. Requests made through it reach the server complete, in call order, each with a fresh id. When the connection is closed, reset or delivers garbage the event stream reports an error or ends; it never panics or blocks the caller.',
 ['schedules','inputs','fault_sequences'],
 'every notification sequence, chunking, close/reset point, every interleaving of the caller and the event thread',
 'the client library has no test beyond draining one view.',
 [CONN,CLI,RPC],[('Client::run','remote/src/client.rs'),('event_update','remote/src/connection.rs'),('request_id','remote/src/connection.rs')],['ConnectionState','events','bytes received by the server'])
prop('C12','Selecting a menu item sends the item the user sees',
 'With any interleaving of incoming menu updates and next, previous, cancel and select actions, the selected item is always one of the items of the menu currently shown, and confirming sends a selection for that menu and that item (or the typed search text for a prompt) and closes the menu. Actions on an empty or closed menu send nothing and never panic.',
 ['schedules','histories','inputs'],
 'every interleaving of menu notifications with user actions, menus of any size including empty',
 'menu navigation has no test.',
 [CONN],[('Menu::select_next/previous/selected_item','remote/src/connection.rs'),('menu_select','remote/src/connection.rs')],['menu-select requests on the wire','ConnectionState.menu'])
prop('C13','Menus list what exists now and run the chosen action for the client that chose',
 'A menu request returns, for any search text, exactly the entries whose label contains the search words in order, case-insensitively, best match first; the entries are those that existed when the menu was last opened or requested with an empty search (commands, files, buffers, views). Choosing an entry performs that action for the choosing client only; an unknown menu or choice is refused without effect. Other clients using menus at the same time change none of this.',
 ['schedules','histories','inputs'],
 'every search text including special characters, every history of buffers, views and files, every interleaving of clients using menus',
 'two unit tests on one pattern; no test requests a menu from an editor.',
 [MENU,CMD,ED],[('MenuFilter','editor/menu.rs'),('command_menu / command_menu_select','editor/mod.rs'),('default_commands','editor/command.rs')],['menu notifications','responses and resulting views'],
 [('command_map','menus shared by all clients','editor/mod.rs Editor')])
prop('C14','Key handling is modal per client, whatever the batching and interleaving',
 'The effect of a key depends only on the keys the same client typed before: modes are entered and left per client, and sending the same keys in one request or in many, interleaved in any way with the keys of other clients, has the same effect. The status line tells each client its own identity, session, last handled key and mode.',
 ['schedules','inputs','histories'],
 'every key sequence (including undecodable key names), every batching into requests, every interleaving of clients',
 'no test sends keys through the key handler.',
 ['core/scripts/keys.lua','core/scripts/editor.lua',ED,'remote/src/keys.rs'],[('ModalHandler','core/scripts/keys.lua'),('command_keys','editor/mod.rs'),('per-client handler table','core/scripts/editor.lua')],['status, hint, echo and view notifications'])
prop('C15','A script runs once for its client and its failure stays with it',
 'An exec request runs its script exactly once, in order with the other requests, on behalf of the client that sent it, and its visible effects are those of the operations it performed. A script that fails to parse, raises an error or passes arguments that make no sense yields an error response and an error message to that client only; the operations performed before the failure remain, and everybody, including that client, can go on working.',
 ['inputs','schedules','histories'],
 'every script built from the editor API with valid and invalid arguments (clients, buffers, texts), failing at every point, interleaved with other clients',
 'Lua tests call the API of one client with valid arguments.',
 [ED,CORE,'core/scripts/editor.lua','core/scripts/prelude.lua'],[('exec_lua / command_exec','editor/mod.rs'),('Core Lua methods','editor/core.rs'),('LuaEditor','editor/mod.rs')],['responses','echo and view notifications'])
prop('C16','Standalone mode answers every input line and loses no output',
 'In standalone mode every line read on standard input is answered by exactly one response line on standard output, in order, and all notifications of the session are written as whole lines, none lost, before the program ends at end of input. Files named on the command line are opened first; one that cannot be opened does not prevent the session.',
 ['schedules','inputs','fault_sequences'],
 'every input script and chunking, every interleaving of the main and the printing thread, slow readers of the output, failing file opens, non UTF-8 input',
 'standalone mode is not tested.',
 ['core/src/clients.rs',ED],[('start_standalone','core/src/clients.rs'),('printing thread','core/src/clients.rs')],['standard output of the process','exit'])
prop('C17','The JSON bridge passes complete messages both ways without loss',
 'The stdio bridge forwards every well-formed request line of its input to the server and every message of the server to its output, each as one complete line, in order and without loss or duplication, while both sides are open. It ends when the server closes the connection, not at the end of its own input, after everything received before has been written.',
 ['schedules','fault_sequences','inputs'],
 'every interleaving of input, output and connection traffic, every chunking, slow output, close or reset of the connection at any point',
 'the bridge is not tested.',
 ['core/src/clients.rs',CLI],[('StdioClient::run','core/src/clients.rs')],['standard output of the bridge','bytes received by the server'])
prop('C18','The C interface delivers every event once, in order, until the session ends',
 'A user of the C interface obtains by iterating the events exactly the notifications it has a representation for (echo, menu, view, status, info) among those the connection received, in order, with the contents the accessors expose, and is told about every message that could not be decoded and about the end of the connection. No message content and no fault of the connection aborts the host process.',
 ['schedules','inputs','fault_sequences'],
 'every notification sequence and content, every close or reset point, every interleaving of the connection thread with the calls',
 'the C interface is not tested.',
 ['remote-ffi/src/lib.rs'],[('events iterator','remote-ffi/src/lib.rs'),('connection thread','remote-ffi/src/lib.rs')],['values returned by the C functions'])
prop('C19','Scripts run from the command line run once each, in order, in one editor',
 'In script mode every script named on the command line (a dash stands for standard input) is read and run once, in the order given, all in one editor and one interpreter, so each sees what the ones before it did to buffers, views, selections and globals. The program ends successfully exactly when all of them ran; a script that cannot be read or fails ends it with failure at that point, naming a script that failed together with its error, and none of the later ones runs.',
 ['inputs','fault_sequences'],
 'every list and content of scripts, every way standard input arrives and ends, every failing, short or interrupted read',
 'the script tests run one well-formed file each through a library function, without the command line, standard input or faults.',
 ['core/src/script.rs','core/src/bin/ced.rs'],[('exec_scripts','core/src/script.rs'),('Mode::script','core/src/bin/ced.rs')],['exit status','standard error'])
prop('C20','Key notation round-trips',
 'Every key event printed by the key notation is read back as the same key event, and every accepted notation denotes one key event.',
 ['inputs'],'every key and modifier combination','two unit tests on some keys.',
 ['remote/src/keys.rs'],[('Display / FromStr of KeyEvent','remote/src/keys.rs')],['KeyEvent'])
prop('C21','Text storage behaves like a flat string with undo',
 'Any sequence of insert, append, delete, replace, undo and redo on a stored text leaves the text, its lines and its position mapping equal to those of a flat string with an edit history.',
 ['inputs','histories'],'every operation sequence on the text structure itself','a handful of fixed sequences.',
 [PT,NAV],[('PieceTable','editor/piece_table/mod.rs')],['PieceTable methods'])
prop('C22','A session name means the same session to everybody',
 'Everybody who uses the same session name meets at one server, and at different servers for different names: programs started as server, daemon or json client however the name is given on the command line, users of the library that start or connect, and clients that look for the socket or address themselves. A plain name (anything that can be the name of a file, also when it resembles an option, an address or another name) is a socket of exactly that name in the session directory and appears in the session list; @ADDRESS:PORT is the TCP address, a missing address or localhost being 127.0.0.1. A program started without a name has a session of its own. Clients are told the name of their session, spelled out for an address. Starting under a name that cannot be that of a session (empty, ending in a slash, a directory, too long) does not report success for something that cannot be connected to, and disturbs nobody.',
 ['inputs','schedules','histories'],
 'every plain name and IPv4 address, every mode of starting and joining, several sessions at once, servers that crash and are started again',
 'a unit test reads and prints six names; nothing starts two programs with one name.',
 [SES,LIB,'core/src/bin/ced.rs','remote/src/transport/mod.rs'],[('Session::from_name / ConnectionMode','remote/src/session.rs'),('start_daemon / ensure_session','remote/src/lib.rs'),('main','core/src/bin/ced.rs')],['listening sockets','connections','session told to clients','session list'])
prop('C23','The generated C declarations match the library',
 'The generated accessor code and header describe every field of the exported structures with the same name and order as the library.',
 ['programs'],'every exported structure the generator can be given','the generator has unit tests over fixed structures.',
 ['remote-ffi-gen/src/lib.rs'],[('generator','remote-ffi-gen/src')],['generated ffi.rs and bindings.h'])
prop('C24','Keys pressed on the terminal reach the server, and the terminal is left as found',
 'The program on a terminal opens the files it was started with and then turns every key pressed, in order, into what it means: while no menu is open, characters and Escape are sent to the server as keys with their modifiers, Control-f, -p and -v ask for the menus, Alt-q leaves; while a menu is open, characters and Backspace change the search asked for, also when the server has not answered the last one yet, Up and Down move the selection within the entries, Enter sends the choice and closes it, Escape closes it. Nothing the server sends, no size of the terminal, no failure to read or to write the log and no end of the connection makes the program fail; it goes on until Alt-q or the end of the connection, and then leaves the normal screen, a visible cursor and the previous terminal mode behind.',
 ['schedules','inputs','fault_sequences'],
 'every order of keys, messages, resizes, errors and the end of the connection, every content of messages, every terminal size',
 'the terminal client is not tested.',
 ['core/src/tui.rs',CONN],[('Term::start / handle_input','core/src/tui.rs'),('Drop for Term','core/src/tui.rs'),('menu actions of Connection','remote/src/connection.rs')],['requests on the wire','exit','terminal modes'])
prop('C25','The terminal shows what the server told',
 'Whenever the program on a terminal has caught up, its screen is that of what it was told last: the open menu with its title and search in the first row, its entries below, the selected one in sight and the only one reversed; or, without a menu, for every buffer of the view a header and the lines of its lenses in order, selections reversed, cut to the width and to the rows above the last, and in the last row the echo on the left and the status items on the right, losing their beginning when both do not fit. Hints lie over the lower right corner until the next full drawing. A tabulation is shown as blanks up to the next multiple of eight columns of its text and a control character as the replacement character U+FFFD, never as what a terminal would make of them. This holds for texts of characters of one column and every size of the terminal, whatever was shown before.',
 ['schedules','inputs','histories'],
 'every view, menu, echo, status and hint, every terminal size and change of it, every order of messages and keys',
 'the terminal client is not tested.',
 ['core/src/tui.rs',CONN],[('draw_view / draw_menu / draw_status / draw_hint','core/src/tui.rs'),('ConnectionState','remote/src/connection.rs')],['screen contents after the escape sequences written'],
 [('last_size','columns and rows drawn for','core/src/tui.rs Term')])
prop('C26','What a server holds depends on who is connected, not on who was',
 'However many clients have come and left before - by quitting, closing their connection, closing half of it or being reset, idle, working, not reading or in the middle of a line, also while accepting or reading files failed - a server at rest holds what it would hold without them: the connections of clients that have left are closed on its side, files read and descriptors used meanwhile are closed again, and no task or thread for them goes on. A server can so serve any number of clients one after another.',
 ['histories','schedules','fault_sequences'],
 'every number of clients and every way to come, work and leave, in any order and at once',
 'no test starts a server; a leak shows after hundreds of clients.',
 [SRV,ED,'remote/src/transport/server_stream.rs'],[('Server::serve / read_client / write_client','core/src/server.rs'),('shutdown','remote/src/transport/server_stream.rs')],['open connections, descriptors, tasks and threads of the server process'])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+'\n')
print(len(P))
