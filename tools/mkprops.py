#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text lives here, one entry per property)."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text),
        why_tests_cant=why,
        anchors=dict(
            files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

S, C, I, H, CF, F = ("schedules", "crash_points", "inputs", "histories",
                     "configurations", "fault_sequences")

prop("C01", "The m2m session is always regained after faults, without hammering",
 "However the connection to the m2m server fails (refused, unresolvable, handshake rejected or never answered, closed, reset, corrupt frames, or a link that silently goes dead), the agent notices and, once the server is reachable again, has a working joined session within a bounded time (5 minutes). Each established session begins with exactly one join request, sent before anything else on that session. Successive connection attempts start at least 4 seconds apart.",
 [S, F, H], "every sequence of connection outcomes, fault times and thread schedules",
 "tests use a fake websocket or one happy connection; no test loses, stalls or corrupts a live link and waits for the reconnect",
 ["dataplicity/m2m/wsclient.py", "dataplicity/m2mmanager.py", "dataplicity/constants.py"],
 [("persist() reconnect loop with ping timeout", "dataplicity/m2m/wsclient.py WSClient.run"),
  ("request_join on ready", "dataplicity/m2m/wsclient.py WSClient.on_ready")],
 [("identity", "m2m identity of the current session, None when there is none", "WSClient.identity")],
 ["frames the m2m server receives", "connection attempts the m2m server sees"])

prop("C02", "The API server is told the identity of the current m2m session",
 "Whenever the m2m server assigns the agent an identity, the agent reports exactly that identity, with its serial and auth token, to the API server, and keeps retrying (about every 5 seconds while the session lasts) until the API server has acknowledged it. An acknowledged identity is not reported again while it stays the same, and a changed identity is reported again. Until the API server has acknowledged the current identity no failure of the API server (unreachable, timeout, HTTP error, malformed reply, RPC error on any call) stops the retrying.",
 [S, F, H], "every history of identity changes, reconnects and API failures",
 "tests call set_m2m_identity once against a mock; nothing covers retries, failures part-way, or identity changes during a retry",
 ["dataplicity/m2mmanager.py", "dataplicity/client.py", "dataplicity/m2m/wsclient.py", "dataplicity/jsonrpc.py"],
 [("notified_identity compared on every websocket poll", "dataplicity/m2mmanager.py M2MManager.set_identity"),
  ("batch of check_auth + m2m.associate, None on failure", "dataplicity/client.py Client.set_m2m_identity")],
 [("notified_identity", "last identity the API server acknowledged", "M2MManager.notified_identity")],
 ["m2m.associate calls the API server receives"])

prop("C03", "No incoming m2m message can wedge or drop the control link",
 "Whatever bytes arrive in a message from the m2m server (truncated, corrupted, badly typed, unknown or out of context), the agent neither drops the connection, nor stops, nor sends anything because of an undecodable message, and it goes on handling the valid messages that follow: pings are answered and instructions are obeyed. A malformed message leaves open channels and running services undisturbed.",
 [I, H, S], "every message content and every position in a session",
 "tests decode a few hand-written packets; none feeds hostile bytes to a live client",
 ["dataplicity/m2m/bencode.py", "dataplicity/m2m/wsclient.py", "dataplicity/m2m/dispatcher.py", "dataplicity/m2m/packetbase.py"],
 [("decode errors are caught per message", "dataplicity/m2m/wsclient.py WSClient.on_binary, WSClient.run"),
  ("argument validation before dispatch", "dataplicity/m2m/dispatcher.py Dispatcher.dispatch_packet")],
 (), ["pong packets and service replies on the wire"])

prop("C04", "Control traffic is answered in order and in bounded time",
 "Every m2m ping is answered on the same session by exactly one pong carrying the first 1024 bytes of the ping's data, in the order the pings arrived. While the link is up the answer leaves the agent within 90 seconds even while the API server hangs, transfers, terminals and commands are running, or a local service accepts no data.",
 [S, F, I], "every interleaving of pings with service traffic and API server stalls",
 "tests answer one ping with nothing else going on",
 ["dataplicity/m2m/wsclient.py", "dataplicity/jsonrpc.py", "dataplicity/portforward.py"],
 [("ping handler", "dataplicity/m2m/wsclient.py WSClient.handle_ping"),
  ("API calls are bounded by a timeout", "dataplicity/jsonrpc.py JSONRPC._send")],
 (), ["pong packets on the wire"])

prop("C05", "Channel data is delivered in order, exactly once, to the right channel",
 "Data the server routes to a channel reaches that channel's service in order, exactly once and on no other channel, and data a service writes reaches the server the same way, whatever number of services write at the same time and whether or not the connection is compressed. The stream of frames the server receives is always well formed, with every packet decodable. Echo services return precisely the bytes they were sent.",
 [S, I, H], "every interleaving of concurrent senders, every segmentation of the TCP stream, compression on or off",
 "tests drive one channel on one thread with a fake websocket",
 ["dataplicity/m2m/wsclient.py", "dataplicity/m2m/echoservice.py"],
 [("one lock around frame building and sending", "dataplicity/m2m/wsclient.py WSClient.send_bytes"),
  ("channel table", "dataplicity/m2m/wsclient.py WSClient.get_channel, handle_route")],
 [("channels", "open channels by number", "WSClient.channels")],
 ["request_send packets the server decodes"])

prop("C06", "Closed channels stay silent and their numbers start afresh",
 "Once the server has announced that a channel is closed, or the connection is lost, the agent sends no data or control message on that channel for the old use, the service behind it is told exactly once and winds down. A channel number that the server reuses, on the same connection or after a reconnect, behaves like a brand new channel: nothing of its previous use appears on it, and new data and services work on it.",
 [S, H, F], "every history of opens, closes, disconnects and number reuse, and every schedule of the services involved",
 "no test reuses a channel number or loses a connection with channels open",
 ["dataplicity/m2m/wsclient.py"],
 [("notify_close removes the channel", "dataplicity/m2m/wsclient.py WSClient.on_notify_close"),
  ("all channels closed on disconnect", "dataplicity/m2m/wsclient.py WSClient.hard_close_channels")],
 [("channels", "open channels by number", "WSClient.channels")],
 ["packets per channel the server receives"])

prop("C07", "Port forwarding carries the byte stream faithfully both ways",
 "What a local server receives through a forward is exactly the bytes routed to the channel, in order, from the first byte on, including bytes that arrive before the local connection is made; what the remote user receives is exactly the bytes the local server sent. When the transfer is cut short by either side closing or by a failure, each direction carries a prefix of the stream with no gap, duplicate or alteration, and a side that sends everything and then closes normally, the local server or the remote user, has all of it delivered to a peer that keeps reading.",
 [S, I, F, H], "every segmentation, size, speed of either end, connect delay and close time",
 "the tests only start a forward against a mocked socket",
 ["dataplicity/portforward.py", "dataplicity/m2m/wsclient.py"],
 [("buffer until connected, then sendall under the lock", "dataplicity/portforward.py Connection.on_channel_data, Connection._flush_buffer"),
  ("recv loop", "dataplicity/portforward.py Connection._run")],
 [("read_buffer", "bytes not yet written to the local server", "Connection.read_buffer")],
 ["bytes at the local server", "request_send packets"])

prop("C08", "Forwards end when either side ends, and only those",
 "When the remote user closes a forwarded channel or the m2m link is lost, the local connection is closed in bounded time; when the local server closes, resets or cannot be reached, the channel is closed in bounded time. Ending, failing or refusing one forward never disturbs another forward, nor stops later forwards from working. Services go to ports 80, 81, 8000 and 8080 by name, redirects to the requested port, always on the device itself, and an unknown service name opens nothing.",
 [S, F, H], "every order and timing of closes, resets and failures over several concurrent forwards",
 "no test closes a forward or runs two of them",
 ["dataplicity/portforward.py", "dataplicity/m2mmanager.py"],
 [("poll loop watching channel and socket", "dataplicity/portforward.py Connection._run"),
  ("service table", "dataplicity/portforward.py PortForwardManager.init")],
 [("close_event", "manager-wide stop flag", "PortForwardManager._close_event")],
 ["connections at the local servers", "request_close packets"])

prop("C09", "Terminals carry keystrokes and output faithfully, with resizes",
 "Everything the remote user types reaches the terminal's program unchanged and in order, and everything the program prints reaches the user unchanged, in order and completely, including what it printed just before it exited. A terminal starts with the requested size (80x24 if none) and a window-resize message sets the new size; other or malformed control messages change nothing and leave the terminal working.",
 [S, I, H], "every chunking, volume, timing and control message content",
 "no test runs a terminal",
 ["dataplicity/m2m/proxy.py", "dataplicity/m2m/remoteprocess.py", "dataplicity/m2mmanager.py"],
 [("pty copy loop", "dataplicity/m2m/proxy.py Interceptor._copy"),
  ("write loop to the pty", "dataplicity/m2m/proxy.py Interceptor.write_master"),
  ("control handling", "dataplicity/m2m/remoteprocess.py RemoteProcess.on_control")],
 (), ["bytes at the pty", "request_send packets", "TIOCSWINSZ on the pty"])

prop("C10", "No terminal process outlives its channel, and none is left unreaped",
 "When a terminal's channel closes or the link is lost, at whatever moment including while the terminal is being launched, its process gets a hangup signal, is killed if it is still running about 15 seconds later, and is reaped once dead. When the process exits by itself its channel is closed. The agent never signals a process other than the terminal processes it started.",
 [S, F, H], "every close time relative to launch and exit, programs that ignore the hangup, and pid reuse",
 "no test launches or closes a terminal",
 ["dataplicity/m2m/remoteprocess.py", "dataplicity/m2m/proxy.py", "dataplicity/m2mmanager.py"],
 [("SIGHUP then wait thread with SIGKILL", "dataplicity/m2m/remoteprocess.py RemoteProcess.close, PidWaitThread.run")],
 [("pid", "process id of the shell", "Interceptor.pid")],
 ["signals and waits the simulated kernel sees", "request_close packets"])

prop("C11", "Service and terminal limits hold, and slots always come back",
 "Never more than the configured number of services (forwards, file reads and commands together) or of terminals run at once; the pools are independent and every request within the limit is served. A request beyond the limit, or one whose thread cannot be started, is refused in a way the remote user can see (data or an error on the channel, then the channel is closed) without disturbing the running ones. Every slot is given back when its service ends for whatever reason, so that after all services ended the full number can run again.",
 [S, F, H, CF], "every history of starts, ends and failures of all service kinds, and limits from 1 up",
 "tests call increment and decrement on one thread; none checks slots across real services and failures",
 ["dataplicity/limiter.py", "dataplicity/m2mmanager.py", "dataplicity/portforward.py", "dataplicity/m2m/fileservice.py", "dataplicity/m2m/commandservice.py", "dataplicity/m2m/remoteprocess.py"],
 [("Limiter", "dataplicity/limiter.py Limiter.increment, Limiter.decrement, limiter_context"),
  ("decrement when the service thread ends", "run() / run_service() of each service")],
 [("_value", "slots in use", "Limiter._value")],
 ["concurrently active services as seen from the outside", "refusals on the wire"])

prop("C12", "File reads deliver the file or say why not, and always close",
 "A read-file request sends the file's exact bytes in order on its channel and then closes the channel; if the file cannot be opened or reading fails part-way, what was sent is a prefix of the file, an error control message follows, and the channel is closed. If the channel is closed meanwhile the agent soon stops sending. Requests for several files run at the same time without mixing their data.",
 [S, F, I, H], "every file size, I/O error position, close time and interleaving",
 "no test runs the file service against failures or concurrency",
 ["dataplicity/m2m/fileservice.py", "dataplicity/m2mmanager.py"],
 [("chunked send loop", "dataplicity/m2m/fileservice.py FileService._run_service")],
 (), ["packets on the channel"])

prop("C13", "Remote commands stream all output, report completion once, and close",
 "A run-command request sends the command's standard output in order and completely (and only that), then exactly one completion message with the command's real exit status, then closes the channel, within bounded time of the command ending. If the channel is closed first the command is killed and nothing more is sent. A command that produces any amount of error output, or none at all, behaves the same.",
 [S, F, I, H], "every output pattern on both streams, exit status, exit time and channel close time",
 "the command service test asserts nothing about completion or exit status",
 ["dataplicity/m2m/commandservice.py", "dataplicity/m2mmanager.py"],
 [("poll loop over both pipes", "dataplicity/m2m/commandservice.py CommandService._run_service")],
 (), ["packets on the channel", "state of the simulated command process"])

prop("C14", "Uploads read a frozen snapshot, with one truthful reply per request",
 "Each open, read or close request for a remote file gets the right reply: an open answers once with the size of the snapshot or a failure, and every read answers once with exactly the snapshot's bytes at that offset (fewer only at the end of the file) or a failure. The bytes are those the file had when it was opened (never changed by later writes, deletion, other uploads or an agent restart) until the upload is closed, after which reads fail and no snapshot is left behind. A failed open (missing file, no disk space, I/O error, or one that would leave less than about 50 MB free on the snapshot disk) leaves no snapshot behind.",
 [S, C, F, I, H], "every sequence of opens, reads and closes over several uploads, file changes, disk faults and agent restarts",
 "tests read one small file once",
 ["dataplicity/remote_directory.py", "dataplicity/m2m/wsclient.py", "dataplicity/disk_tools.py"],
 [("copy to a snapshot on open", "dataplicity/remote_directory.py RemoteDirectory.add_upload"),
  ("seek and read of the snapshot", "dataplicity/remote_directory.py RemoteDirectory.read_upload")],
 [("dataplicity_remote/", "snapshot files by upload id", "RemoteDirectory.temp_path")],
 ["open/read results on the wire", "files on the simulated disk"])

prop("C15", "Downloads appear whole, under a fresh name, exactly as sent",
 "Every write request gets exactly one reply, naming the download, the chunk's size and the position reached, saying the chunk was stored or why not. A chunk sent without a device path starts the download afresh, later ones continue it. When the final chunk is acknowledged as stored, the remote directory contains one new file holding exactly the bytes sent at their offsets, whatever order or repetition the chunks came in, and no existing file is changed: a taken name gives \"name(N).ext\" with the lowest free N, and a device path whose directory does not exist is answered with a failure. At no moment, including when the agent is killed at any point or the disk fails or fills up, does a partial file stand under the download's name in the remote directory. (Other programs creating the same name at the same moment are out of scope.)",
 [S, C, F, I, H], "every chunk order, concurrent downloads, name collision, disk fault position, cross-device layout and kill point",
 "tests write one chunk to one file",
 ["dataplicity/remote_directory.py", "dataplicity/m2m/wsclient.py"],
 [("chunks written to a temp file", "dataplicity/remote_directory.py RemoteDirectory.on_write_remote_file"),
  ("rename (or copy then rename) to a free name", "dataplicity/remote_directory.py RemoteDirectory.copy_download")],
 [("dataplicity_remote_downloads/", "downloads in progress", "RemoteDirectory.temp_path")],
 ["write results on the wire", "files on the simulated disk"])

prop("C16", "Remote-file requests cannot reach outside the shared directory",
 "Whatever paths, upload ids, download ids or device paths a remote-file request carries, open and read requests only ever return content of files under the remote directory (or the agent's own scan listing), and write and close requests only ever create, change or delete files under the remote directory or the agent's own temporary download and snapshot folders. A request that would reach elsewhere is answered with a failure and has no effect on the disk. (Links planted inside the remote directory by the device's owner are out of scope.)",
 [I, H], "every combination of hostile names over a history of requests",
 "one test checks validate_path; the ids and device paths are never tested",
 ["dataplicity/remote_directory.py"],
 [("path validation", "dataplicity/remote_directory.py validate_path, add_upload, get_snapshot_path, add_download, copy_download")],
 (), ["simulated disk contents", "results on the wire"])

prop("C17", "Directory scans list exactly what is there, and always finish",
 "A scan of an unchanging directory lists every non-hidden file (with its size) and directory below the root exactly once at its true path, down to the depth limit (directories nested up to 9 levels), and nothing else. The same directory reached again through links is not descended into a second time: scans terminate on link loops, every directory is still listed by one of its paths, and everything listed exists. Unreadable directories or entries, and entries that vanish while the scan runs, never abort the scan or hide the readable rest.",
 [I, F, S], "every directory tree with links, loops and faults, and concurrent changes",
 "tests scan three small static trees",
 ["dataplicity/scan_directory.py"],
 [("explicit stack with visited inodes", "dataplicity/scan_directory.py scan_directory")],
 [("visited_directories", "inodes already entered", "scan_directory")],
 ["scan.json as served to the server"])

prop("C18", "Scan requests are answered and the listing is never seen torn",
 "Every scan request from the server is answered in bounded time by a result, success only once a listing no older than the request has been stored, and a failure with the reason otherwise. The stored listing is at every moment a complete listing from one scan: opening it while a scan is being written, after a disk error, or after the agent is killed at any point yields either the earlier or the later complete listing.",
 [S, C, F, H], "every interleaving of scan requests, openings, disk faults and kill points",
 "no test runs two scans, reads during a scan, or fails a scan",
 ["dataplicity/directory_scanner.py", "dataplicity/remote_directory.py", "dataplicity/m2m/wsclient.py"],
 [("scan thread and lock", "dataplicity/directory_scanner.py DirectoryScanner.perform_scan"),
  ("atomic replacement of scan.json", "dataplicity/directory_scanner.py DirectoryScanner.write_scan")],
 (), ["scan results on the wire", "scan file on the simulated disk"])

prop("C19", "Device metadata is sent until acknowledged, then not again",
 "From start-up on, on every poll and on every sync instruction, the agent sends its complete metadata with its credentials to the API server until one batch has been acknowledged in full (authentication and all six fields); after that it is not sent again in that run. A failure of any kind (network, HTTP, malformed reply, error for any one call, missing reply) leaves it to be sent again on the next poll. Simultaneous poll and sync instruction never send two batches at once.",
 [S, F, H], "every failure pattern of the API server and every interleaving of poll and sync",
 "tests sync once or twice against a mock",
 ["dataplicity/client.py", "dataplicity/jsonrpc.py", "dataplicity/device_meta.py"],
 [("_sent_meta set only after batch.check", "dataplicity/client.py Client._check_meta"),
  ("sync lock", "dataplicity/client.py Client.sync")],
 [("_sent_meta", "metadata acknowledged", "Client._sent_meta")],
 ["requests the API server receives"])

prop("C20", "Machine tags at the server follow the tag script",
 "On each poll the agent runs the tag script, and if its list of tags differs from the list last acknowledged by the API server it sends the new list with its credentials; an acknowledged list is not resent while unchanged, and a list whose sending failed in any way is sent again on the next poll. Tags are split at commas and white space and cut to 25 characters; a missing script means an empty list, a failing script leaves the server's tags alone, and no script behaviour stops the other polling work.",
 [S, F, I, H], "every history of script outputs and API failures",
 "tests use a mock for one output",
 ["dataplicity/client.py", "dataplicity/tags.py"],
 [("compare with last acknowledged list", "dataplicity/client.py Client.tag_poll"),
  ("script run and split", "dataplicity/tags.py get_tag_list")],
 [("_tag_list", "tags last acknowledged", "Client._tag_list")],
 ["requests the API server receives"])

prop("C21", "Disk usage is reported at start and then hourly, truthfully",
 "The agent reports the root filesystem's total and used bytes as they are at that time, with its credentials, on its first poll and then once every hour (on the first poll at or after the hour), no more often, for as long as it runs, whatever happens to individual reports.",
 [S, F, H], "every failure pattern over long runs and changing disk usage",
 "the disk poll test needs the network and covers one call",
 ["dataplicity/client.py", "dataplicity/disk_tools.py"],
 [("next_disk_poll_time", "dataplicity/client.py Client.disk_poll")],
 [("next_disk_poll_time", "when the next report is due", "Client.next_disk_poll_time")],
 ["requests the API server receives"])

prop("C22", "RPC results are attributed to the right call, errors never lost",
 "For every response the API server can give to a batch (results and errors in any order, missing or extra entries, errors without id, non-JSON, wrong type, truncated, HTTP or network failure, stall), a call counts as successful only if the response answers that call's id with a result and without an error, an error is reported for precisely the call it belongs to with its code and message, and anything else is reported as a failure. No response makes a request hang or be treated as acknowledged when it was not.",
 [I, F, H], "every response and failure the server side can produce, at every call site",
 "tests cover well-formed responses and one error",
 ["dataplicity/jsonrpc.py"],
 [("results and errors by id", "dataplicity/jsonrpc.py Batch.send, Batch.get_result")],
 (), ["batch results", "what the agent resends"])

prop("C23", "A large clock jump restarts the agent, a normal clock never does",
 "If the system clock jumps forward or backward by more than 3 minutes plus a second, the agent process kills itself within seconds so that its supervisor restarts it, and the restarted agent works normally. Smaller adjustments, slow drift and ordinary scheduling delays never kill it.",
 [S, F, H], "every time and size of clock jump",
 "no test covers the clock thread",
 ["dataplicity/clockcheck.py", "dataplicity/client.py"],
 [("elapsed wall time around a one second sleep", "dataplicity/clockcheck.py ClockCheckThread.run")],
 (), ["SIGKILL the simulated kernel sees"])

prop("C24", "The polling loop survives every failure and stops when asked",
 "As long as the agent runs it polls every 60 seconds (not faster, and never more than 60 seconds plus the time the poll's own requests and tag script take; a tag script is given up after about 30 seconds), whatever fails in a poll. When the agent is asked to exit it finishes the current poll, stops its clock watchdog and returns within bounded time.",
 [S, F, H], "every failure pattern in polls and every exit time",
 "no test runs the loop",
 ["dataplicity/client.py"],
 [("exit_event.wait loop with per-part exception handling", "dataplicity/client.py Client.run_forever, Client.poll")],
 [("exit_event", "exit requested", "Client.exit_event")],
 ["polls as seen by API server and script runs"])

prop("C25", "Buffered channel reads return every byte once, in order",
 "Data arriving on a channel with no service attached is buffered, and reads return it first in, first out, each byte exactly once, never more than asked for, with the buffered size and emptiness reported correctly. A blocking read returns as soon as data arrives and otherwise at its timeout with nothing; a reader never blocks while data is available.",
 [S, I, H], "every interleaving of arriving data with blocking and non-blocking readers",
 "tests read on one thread after the data arrived",
 ["dataplicity/m2m/wsclient.py"],
 [("deque plus event under a lock", "dataplicity/m2m/wsclient.py Channel.read, Channel.on_data")],
 [("deque", "unread data", "Channel.deque")],
 ["values returned by reads"])

prop("C26", "Instructions are carried out once, and bad ones do nothing",
 "A reboot instruction starts the reboot command exactly once and nothing else ever does; a sync instruction triggers a sync; each open instruction starts precisely the requested service on the requested channel. Instructions that are unknown, incomplete or badly typed, or name an unknown terminal or service, have no effect beyond an error on the channel they name and do not stop later instructions from being obeyed.",
 [I, H, S], "every instruction content and order",
 "tests dispatch a few instructions to mocks",
 ["dataplicity/m2mmanager.py", "dataplicity/m2m/wsclient.py"],
 [("action dispatch", "dataplicity/m2mmanager.py M2MManager.on_instruction")],
 (), ["processes started, services opened, packets sent"])

prop("C27", "The agent runs under its configured identity, servers and limits",
 "Every process of the agent started with the run command talks to exactly the API URL and m2m URL, as exactly the device (serial and auth token), serving exactly the remote directory and admitting exactly the numbers of services and terminals it was configured with. The command line comes first, then the environment (URLs, limits) or the stored serial and auth files without surrounding whitespace, then the defaults; a limit that is not an integer counts as not given; a wss URL is connected with TLS, and the feature list is added to an m2m URL without a query only. A process keeps its identity for life: files replaced while it runs count from the next start on. A start whose identity cannot be read ends with a failure exit code without having contacted any server, and a later start works once it can be read.",
 [I, F, H, S], "every combination of options, environment and stored files, and every failure to read them or change to them at any time",
 "no test starts the program",
 ["dataplicity/app.py", "dataplicity/client.py", "dataplicity/constants.py", "dataplicity/m2mmanager.py", "dataplicity/subcommands/run.py", "dataplicity/limiter.py"],
 [("precedence of options, environment, files, defaults", "dataplicity/client.py Client.__init__, Client._init; dataplicity/constants.py"), ("option parsing", "dataplicity/app.py App.run, App.make_client")],
 [("serial, auth_token", "identity the process runs under", "Client.serial, Client.auth_token")],
 ["requests, connections, TLS handshakes and websocket requests the servers see", "files served", "services admitted", "exit codes"])

prop("C28", "Finished work leaves nothing behind: the agent can run for months",
 "Once a channel is closed, a service, terminal or command has ended, a link is lost, an upload is closed, a download or scan is complete or a poll is over, nothing of it stays: no thread, no open descriptor, no child process running or waiting to be reaped, no temporary file and no memory. However often the same work, with the same failures and disconnections, is repeated, the agent's threads, descriptors, children, temporary files and live data stay where they were after the first rounds.",
 [H, F, S], "every history of repeated connections, services, transfers and polls with their faults",
 "tests stop long before anything has added up",
 ["dataplicity/m2m/wsclient.py", "dataplicity/portforward.py", "dataplicity/m2m/remoteprocess.py", "dataplicity/m2m/fileservice.py", "dataplicity/m2m/commandservice.py", "dataplicity/m2mmanager.py", "dataplicity/remote_directory.py", "dataplicity/client.py"],
 [("closing of channels and their services", "dataplicity/m2m/wsclient.py WSClient.close_channel, WSClient.on_close"), ("service threads ending", "dataplicity/portforward.py Connection.run; dataplicity/m2m/remoteprocess.py RemoteProcess.run"), ("snapshots removed", "dataplicity/remote_directory.py RemoteDirectory.close")],
 [("channels", "open channels of the session", "WSClient.channels")],
 ["live threads, descriptors, child processes, temporary files, and objects and container contents reachable in the process, at the end of each round"])

prop("C90", "Packets and metadata encode and parse correctly",
 "Every packet survives an encode/decode round trip unchanged, and command-line, version, network-interface and Raspberry Pi metadata parsing return what their inputs say.",
 [I], "every packet value and every metadata text",
 "tests cover some packets and samples",
 ["dataplicity/m2m/bencode.py", "dataplicity/m2m/packets.py", "dataplicity/iptool.py", "dataplicity/rpi.py", "dataplicity/app.py"],
 [("bencode", "dataplicity/m2m/bencode.py")], (), ["function results"])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
